"""C21: sparse recovery test problems, recovery measures and trials, thresholding operators, wavelets and kernels"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from typing import NamedTuple
import jax
import jax.numpy as jnp
import numpy as np
import cr.sparse.lop as crlop
from cr.sparse._src import tracker
from cr.sparse._src.geo import thresholding as th, wavelets as gw
from cr.sparse._src.vision import kernels as kn
from cr.sparse._src.tools import performance as pf, trials_at_fixed_m_n as tr
from cr.sparse._src.pursuit import phasetransition as pt
from cr.sparse._src.problems import problems as pb, prob003, prob004, prob005, prob007, prob008, prob011
from cr.sparse._src.dict import simple
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import havoc, havoc_shape

CONTRACTS = {'C21': []}


def add(name, fn, **kw):
    CONTRACTS['C21'].append(Contract(name, fn, **kw))


SEED = Param('seed', (), 'i', lo=0, hi=10 ** 6)
TAU = Param('tau', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 2))


# ------------------------------------------------------------------ thresholding
def f_hard(c, d, x, z, tau):
    y = th.hard_threshold(x, tau)
    c.shape('as many values', y, x.shape)
    c.true('kept or set to zero', jnp.logical_or(y == x, y == 0))
    if c.mode == 'trace':
        c.true('kept exactly above the threshold sqrt(2 tau)', (y != 0) == (jnp.abs(x) > jnp.sqrt(2 * tau)))
        c.true('minimises |z - x|^2 / 2 + tau [z != 0]', (y - x) ** 2 / 2 + tau * jnp.where(y != 0, 1., 0.) <= (z - x) ** 2 / 2 + tau * jnp.where(z != 0, 1., 0.))
    else:
        t = float(np.sqrt(2 * float(tau)))
        ok = np.abs(np.abs(np.asarray(x)) - t) > 1e-9
        ref = np.where(np.abs(np.asarray(x)) > t, np.asarray(x), 0.)
        c.eq('kept exactly above the threshold', jnp.where(ok, y, 0.), np.where(ok, ref, 0.))
        w = th.hard_threshold_jit(x, float(tau))
        c.eq('compiled form', jnp.where(ok, w, 0.), np.where(ok, ref, 0.))
        g = float(tau)
        c.eq('tau of a hard threshold', jnp.asarray(th.gamma_to_tau_hard_threshold(g)), g * g / 2)


def f_soft(c, d, x, z, tau):
    y = th.soft_threshold(x, tau)
    c.shape('as many values', y, x.shape)
    c.eq('shrunk by tau', y, jnp.where(x > tau, x - tau, jnp.where(x < -tau, x + tau, 0.)))
    c.true('minimises |z - x|^2 / 2 + tau |z|', (y - x) ** 2 / 2 + tau * jnp.abs(y) <= ((z - x) ** 2 / 2 + tau * jnp.abs(z)) + (1e-12 * (1 + x * x) if c.mode == 'run' else 0))
    if c.mode == 'run':
        c.eq('compiled form', th.soft_threshold_jit(x, float(tau)), y)


def f_soft_c(c, d, x, tau):
    y = th.soft_threshold(x, tau)
    a = jnp.abs(x)
    c.eq('magnitudes are shrunk, phases are kept', y, jnp.where(a > tau, x * (1 - tau / jnp.where(a > 0, a, 1.)), 0.))


def half_obj(z, x, tau):
    return (z - x) ** 2 + tau * np.sqrt(np.abs(z))


def f_half(c, d, x, tau):
    x0, t = np.asarray(x), float(tau)
    y = np.asarray(th.half_threshold(x, tau))
    g = 54 ** (1 / 3) / 4 * t ** (2 / 3)
    ok = np.abs(np.abs(x0) - g) > 1e-9
    c.static('zero exactly below the threshold', bool(np.all(((y == 0) == (np.abs(x0) < g))[ok])))
    Z = np.linspace(-1, 1, 2001)[:, None] * np.maximum(np.abs(x0), 1e-3)[None, :]
    best = np.min(half_obj(Z, x0[None, :], t), axis=0)
    c.static('minimises |z - x|^2 + tau |z|^(1/2)', bool(np.all(half_obj(y, x0, t) <= best + 1e-9 * (1 + x0 ** 2))))
    c.eq('compiled form', th.half_threshold_jit(x, t), y)
    c.eq('tau of a half threshold', jnp.asarray(th.gamma_to_tau_half_threshold(g)), t)


def f_perc(c, d, x, perc):
    p = float(perc)
    a = np.abs(np.asarray(x))
    g = np.percentile(a, p)
    ok = np.abs(a - g) > 1e-9
    z = lambda v: np.where(ok, v, 0.)
    for f in (th.hard_threshold_percentile, th.hard_threshold_percentile_jit):
        c.eq('hard threshold at the percentile', z(f(x, p)), z(np.where(a > g, np.asarray(x), 0.)))
    for f in (th.soft_threshold_percentile, th.soft_threshold_percentile_jit):
        c.eq('soft threshold at the percentile', f(x, p), np.sign(np.asarray(x)) * np.maximum(a - g, 0))
    h = th.half_threshold(x, th.gamma_to_tau_half_threshold(g))
    for f in (th.half_threshold_percentile, th.half_threshold_percentile_jit):
        y = np.asarray(f(x, p))
        c.static('half threshold at the percentile', bool(np.all(((y == 0) == (a < g))[ok])))
        c.eq('half thresholded values', z(y), z(np.asarray(h)))


ST = ('normal', 'int', 'sparse', 'small')
XZ = [Param('x', ('n',)), Param('z', ('n',)), TAU]
k = dict(dims=('n',), num=[(6,), (1,), (40,)], styles=ST)
add('hard threshold', f_hard, args=XZ, grid=[(2,)], light=True, **k)
add('soft threshold', f_soft, args=XZ, grid=[(2,)], light=True, **k)
k['grid'] = [(3,)]
add('soft threshold of complex values', f_soft_c, args=[Param('x', ('n',), 'c'), TAU], **k)
add('half threshold', f_half, args=[Param('x', ('n',)), TAU], deduce=False, **k)
add('percentile thresholds', f_perc, args=[Param('x', ('n',), gen=lambda rng, shape, style, env: rng.standard_normal(shape)), Param('perc', (), gen=lambda rng, shape, style, env: rng.uniform(5, 95))], deduce=False, **k)


# ------------------------------------------------------------------ wavelets and kernels
def f_ricker(c, d, t, f0):
    u = jnp.pi * f0 * t
    c.eq('Ricker wavelet', gw.ricker(t, f0), (1 - 2 * u * u) * jnp.exp(-(u * u)))
    if c.mode == 'run':
        v = np.pi * 10 * np.asarray(t)
        c.eq('default peak frequency', gw.ricker(t), (1 - 2 * v ** 2) * np.exp(-v ** 2))


add('Ricker wavelet', f_ricker, args=[Param('t', ('n',)), Param('f0', (), pos=True)], dims=('n',), grid=[(2,)], num=[(7,), (1,)], styles=('normal', 'small'), light=True)


def f_kernels(c, d, sx, sy):
    sx, sy = float(sx), float(sy)
    for h, w in ((5, 5), (3, 7), (4, 6), (1, 9), (8, 3), (1, 1)):
        K = np.asarray(kn.kernel_gaussian((h, w), (sx, sy)))
        X = np.arange(w) - (w - 1) / 2
        Y = np.arange(h) - (h - 1) / 2
        R = np.exp(-X[None, :] ** 2 / (2 * sx ** 2) - Y[:, None] ** 2 / (2 * sy ** 2))
        c.eq('Gaussian of the given deviations, unit sum', K, R / R.sum())
    for s in (3, 5, 6):
        c.eq('square kernel of one deviation', kn.kernel_gaussian(s, sx), kn.kernel_gaussian((s, s), (sx, sx)))
    c.eq('defaults', kn.kernel_gaussian(), kn.kernel_gaussian((5, 5), (1., 1.)))
    for n in (3, 5, 7, 21):
        c.eq('box kernel %d' % n, getattr(kn, 'KERNEL_BOX_%dX%d' % (n, n)), np.ones((n, n)) / n ** 2)
    yy, xx = np.mgrid[0:5, 0:6].astype(float)
    corr = lambda K, f: sum(float(K[i, j]) * f[1 + i:1 + i + 2, 1 + j:1 + j + 2] for i in range(3) for j in range(3))
    const, quad = np.ones((5, 6)) * 3., xx ** 2 + 2 * yy ** 2
    S, L, GX, GY = (np.asarray(v) for v in (kn.KERNEL_SHARPEN_3X3, kn.KERNEL_LAPLACIAN_3X3, kn.KERNEL_SOBEL_X, kn.KERNEL_SOBEL_Y))
    c.eq('sharpening keeps constants', corr(S, const), 3 * np.ones((2, 2)))
    c.eq('sharpening subtracts the Laplacian', S, (np.arange(9).reshape(3, 3) == 4) * 1 - L)
    c.eq('Laplacian of a quadratic', corr(L, quad), 6 * np.ones((2, 2)))
    c.eq('Sobel x of a ramp', corr(GX, xx + 5 * yy), 8 * np.ones((2, 2)))
    c.eq('Sobel y of a ramp', corr(GY, 7 * xx + yy), 8 * np.ones((2, 2)))
    c.eq('Sobel y is the transpose of Sobel x', GY, GX.T)


add('image kernels', f_kernels, args=[Param('sx', (), gen=lambda rng, shape, style, env: rng.uniform(0.5, 4)), Param('sy', (), gen=lambda rng, shape, style, env: rng.uniform(0.5, 4))], deduce=False, num=[{}], samples=4)


def f_kernel_ded(hw):
    def fn(c, d, sx, sy):
        h, w = hw
        K = kn.kernel_gaussian((h, w), (sx, sy))
        X, Y = jnp.arange(w) - (w - 1) / 2, jnp.arange(h) - (h - 1) / 2
        E = jnp.exp(-(X[None, :] ** 2 / (2 * sx * sx) + Y[:, None] ** 2 / (2 * sy * sy)))
        c.eq('proportional to the Gaussian, unit sum', K, E / jnp.sum(E))
    return fn


for hw in ((3, 3), (2, 3), (1, 4)):
    add('Gaussian kernel %dx%d' % hw, f_kernel_ded(hw), args=[Param('sx', (), pos=True), Param('sy', (), pos=True)], num=[{}])


# ------------------------------------------------------------------ recovery performance
class Sol(NamedTuple):
    x: jnp.ndarray
    iterations: int = 0


class ISol(NamedTuple):
    x_I: jnp.ndarray
    I: jnp.ndarray
    iterations: int = 0


def gen_sparse(rng, shape, style, env):
    x = np.zeros(shape)
    n = shape[0]
    k = 1 if style == 'one' else max(1, n // 3)
    x[rng.permutation(n)[:k]] = rng.uniform(0.5, 2, k) * rng.choice([-1, 1], k) * (10. ** rng.uniform(-6, 3, k) if style == 'wide' else 1.)
    return x


def dr(v):
    v = np.abs(v)
    return 20 * np.log10(v.max() / v.min())


def f_perf(c, d, Phi, x, e):
    P, x0 = np.asarray(Phi), np.asarray(x)
    m, n = P.shape
    y = P @ x0
    T0 = np.flatnonzero(x0)
    K = len(T0)
    rng = np.random.default_rng(abs(hash(x0.tobytes())) % 2 ** 32)
    for kind in ('dense', 'sol', 'isol', 'close', 'operator', 'complexop'):
        if kind == 'close':
            xh = x0 + 1e-6 * np.asarray(e)
        elif kind == 'isol':
            I = rng.permutation(n)[:K]
            xh = np.zeros(n)
            xh[I] = np.asarray(e)[I]
        else:
            xh = x0 + 0.3 * np.asarray(e)
        yy = y + 0.01
        Q = Phi if kind not in ('operator',) else crlop.matrix(Phi)
        arg = dict(sol=Sol(x=jnp.asarray(xh))) if kind == 'sol' else dict(sol=ISol(x_I=jnp.asarray(xh[I]), I=jnp.asarray(I))) if kind == 'isol' else dict(x_hat=jnp.asarray(xh))
        p = pf.RecoveryPerformance(Q, jnp.asarray(yy), x, **arg)
        c.static('sizes', (p.M, p.N, p.K) == (m, n, K))
        c.static('support', list(np.asarray(p.T0)) == list(T0))
        h = x0 - xh
        r = yy - P @ xh
        nr = np.linalg.norm
        c.eq('recovery error', p.h, h)
        c.eq('residual', p.r, r)
        for nm, v, ref in (('x_norm', p.x_norm, nr(x0)), ('y_norm', p.y_norm, nr(yy)), ('x_hat_norm', p.x_hat_norm, nr(xh)), ('h_norm', p.h_norm, nr(h)), ('r_norm', p.r_norm, nr(r)),
                           ('recovery_snr', p.recovery_snr, 20 * np.log10(nr(x0) / nr(h))), ('measurement_snr', p.measurement_snr, 20 * np.log10(nr(yy) / nr(r))), ('h_by_r_norms', p.h_by_r_norms, nr(h) / nr(r)),
                           ('x_dr', p.x_dr, dr(x0[T0])), ('y_dr', p.y_dr, dr(yy)), ('x_hat_dr', p.x_hat_dr, dr(xh[xh != 0]))):
            c.eq(nm, v, ref)
        R0 = np.sort(np.argsort(-np.abs(xh), kind='stable')[:K])
        ok = len(set(np.abs(xh[xh != 0]))) == np.sum(xh != 0)
        if ok:
            c.static('largest entries', list(np.asarray(p.R0)) == list(R0) or kind == 'isol' and np.sum(xh != 0) < K)
            if np.sum(xh != 0) >= K:
                ov = sorted(set(R0) & set(T0))
                c.static('overlap of the supports', list(np.asarray(p.overlap)) == ov and int(p.num_correct_atoms) == len(ov))
                c.eq('support recovery ratio', jnp.asarray(p.support_recovery_ratio), len(ov) / K)
                c.static('perfect support recovery', bool(p.perfect_support_recovery) == (len(ov) == K))
                c.static('success: more than 3/4 of the support and 30 dB', bool(p.success) == (len(ov) / K > 0.75 and 20 * np.log10(nr(x0) / nr(h)) > 30))
        c.eq('error on the support', p.h_T0, h[T0])
        hc = h.copy()
        hc[T0] = 0
        c.eq('error off the support', p.h_T0C, hc)
        c.static('complement of the support', sorted(np.asarray(p.T0C).tolist()) == [i for i in range(n) if i not in set(T0)])
        if 2 * K <= n:
            T1 = set(np.asarray(p.T1).tolist())
            c.static('T1: the K largest errors off the support', len(T1) == K and bool(min(abs(hc[list(T1)])) >= max([abs(hc[i]) for i in range(n) if i not in T1 and i not in set(T0)] or [0]) - 1e-12))
            c.static('the rest', sorted(np.asarray(p.TRest).tolist()) == sorted(set(range(n)) - set(T0) - T1))
    with contextlib.redirect_stdout(io.StringIO()) as f:
        p.print()
    c.static('summary is printed', 'M: %d, N: %d, K: %d' % (m, n, K) in f.getvalue())


GX = Param('x', ('n',), gen=gen_sparse)
EN = Param('e', ('n',), gen=lambda rng, shape, style, env: rng.standard_normal(shape))
add('recovery performance', f_perf, args=[Param('Phi', ('m', 'n'), gen=lambda rng, shape, style, env: rng.standard_normal(shape)), GX, EN], dims=('m', 'n'), deduce=False, grid=[(4, 6)], num=[(4, 6), (5, 12), (8, 8)], styles=('normal', 'one', 'wide'), samples=5)


def f_trials(c, d, seed):
    """each combination of sparsity, dictionary and signal is one fresh trial; the table counts what happened"""
    rng = np.random.default_rng(int(seed))
    for nd, ns in ((2, 1), (1, 3), (3, 2), (2, 4)):
        M, N, Ks = 6, 10, [2, 3]
        log = []

        def solver(Phi, y, K):
            log.append((np.asarray(Phi), np.asarray(y), int(K)))
            good = rng.random() < 0.5
            A, yv = log[-1][:2]
            x = best_k(A, yv, int(K)) if good else np.ones(N)
            log[-1] += (good,)
            return Sol(x=jnp.asarray(x), iterations=len(log))
        tmp = tempfile.mkdtemp(prefix='vf_trials_')
        try:
            t = tr.RecoveryTrialsAtFixed_M_N(M=M, N=N, Ks=Ks, num_dict_trials=nd, num_signal_trials=ns)
            t.add_solver('S', solver)
            with contextlib.redirect_stdout(io.StringIO()):
                t(os.path.join(tmp, 'r.csv'))
            saved = sum(1 for _ in open(os.path.join(tmp, 'r.csv')))
        finally:
            shutil.rmtree(tmp)
        per = nd * ns
        c.static('number of trials', len(log) == per * len(Ks), '%d trials for %d dictionaries x %d signals x %d levels' % (len(log), nd, ns, len(Ks)))
        c.static('rows', len(t.df) == len(Ks) and saved == len(Ks) + 1)
        for q, K in enumerate(Ks):
            part = log[q * per:(q + 1) * per]
            c.static('sparsity level', all(p[2] == K for p in part))
            c.static('dictionary size', all(p[0].shape == (M, N) for p in part))
            c.static('one dictionary for %d signals' % ns, all(np.array_equal(part[i * ns][0], part[i * ns + j][0]) for i in range(nd) for j in range(ns)))
            c.static('different dictionaries', len({part[i * ns][0].tobytes() for i in range(nd)}) == nd)
            c.static('different signals', len({p[1].tobytes() for p in part}) == per, 'a measurement vector is repeated')
            row = t.df.iloc[q]
            good = sum(p[3] for p in part)
            its = np.arange(q * per + 1, (q + 1) * per + 1)
            c.static('row counts', (row.method, row.m, row.n, row.k, row.trials, row.successes, row.failures) == ('S', M, N, K, per, good, per - good))
            c.eq('success rate', jnp.asarray(float(row.success_rate)), good / per)
            c.static('iterations', (row.min_iters, row.max_iters) == (its.min(), its.max()) and abs(float(row.mean_iters) - its.mean()) <= 1)


def best_k(A, y, K):
    best = None
    for S in itertools.combinations(range(A.shape[1]), K):
        s = np.linalg.lstsq(A[:, S], y, rcond=None)[0]
        e = np.linalg.norm(y - A[:, S] @ s)
        if best is None or e < best[0]:
            best = (e, S, s)
    x = np.zeros(A.shape[1])
    x[list(best[1])] = best[2]
    return x


add('recovery trials', f_trials, args=[SEED], deduce=False, num=[{}], samples=1, thorough_samples=3)


# ------------------------------------------------------------------ trackers
def f_tracker(c, d, x, e):
    n = x.shape[0]
    x0 = np.asarray(x)

    class A(NamedTuple):
        x: jnp.ndarray
        r: jnp.ndarray
        iterations: int

    class B(NamedTuple):
        x_I: jnp.ndarray
        I: jnp.ndarray
        r_norm_sqr: float
        iterations: int
    t = tracker.ProgressTracker(x0=x0, every=2)
    states = []
    for k in range(4):
        v = x0 + np.asarray(e) / (k + 1)
        if k % 2:
            I = np.arange(n)[::-1][:n - 1]
            states.append((B(x_I=v[I], I=I, r_norm_sqr=float(k + 2.), iterations=k), np.linalg.norm(v[I]), np.sqrt(k + 2.), np.where(np.isin(np.arange(n), I), v, 0.)))
        else:
            states.append((A(x=v, r=v[:2] * 2, iterations=k), np.linalg.norm(v), np.linalg.norm(v[:2] * 2), v))
    with contextlib.redirect_stdout(io.StringIO()) as f:
        for i, s in enumerate(states):
            t(s[0], more=i < 3)
    c.eq('norms of the estimates', np.array(t.x_norms), np.array([s[1] for s in states]))
    c.eq('norms of the residuals', np.array(t.r_norms), np.array([s[2] for s in states]))
    c.static('iterations', list(t.iterations) == [0, 1, 2, 3])
    c.eq('signal to noise ratios', np.array(t.snrs), np.array([20 * np.log10(np.linalg.norm(x0) / np.linalg.norm(x0 - s[3])) for s in states]))
    out = f.getvalue()
    c.static('reports every second iteration and the last', ('[0]' in out, '[1]' in out, '[2]' in out, '[3]' in out, 'converged in 3' in out) == (True, False, True, True, True))


add('progress tracker', f_tracker, args=[Param('x', ('n',), gen=lambda rng, shape, style, env: rng.standard_normal(shape) + 2), EN], dims=('n',), deduce=False, grid=[(4,)], num=[(4,), (9,)], samples=2, styles=('normal',))


# ------------------------------------------------------------------ phase transition grid
def f_pt(c, d):
    for N in (32, 64, 128, 256, 512, 1024):
        with contextlib.redirect_stdout(io.StringIO()):
            p = pt.configuration(N)
        mm = 16 if N <= 256 else 32
        Ms = list(np.asarray(p.Ms))
        c.static('measurement counts', p.N == N and Ms == list(range(mm, N // 2 + 1, mm)))
        c.eq('etas', p.etas, np.array(Ms) / N)
        nr = min(32, N // 4)
        c.eq('rhos', p.rhos, 0.5 * np.arange(1, nr + 1) / nr)
        seen = set()
        for q in p.configurations:
            c.static('sparsity of a configuration', q.K == int(np.ceil(np.round(q.rho * q.M, 9))) and 1 <= q.K <= q.M / 2 + 1 and q.M in Ms and abs(q.eta - q.M / N) < 1e-6, str(q))
            c.static('no configuration twice', (q.K, q.M) not in seen)
            seen.add((q.K, q.M))
        c.static('every pair of ratios has its configuration', len(p.reverse_map) == nr * len(Ms) and set(p.reverse_map.values()) == seen)
        for (rho, eta), (K, M) in p.reverse_map.items():
            c.static('reverse map', abs(eta - M / N) < 1e-6 and K == int(np.ceil(np.round(rho * M, 9))))


add('phase transition configurations', f_pt, deduce=False, num=[{}], samples=1)


# ------------------------------------------------------------------ test problems
SMALL = {'heavi-sine:fourier:heavi-side': [dict(n=16), dict(n=33)], 'blocks:haar': [dict(n=64), dict(n=128)], 'cosine-spikes:dirac-dct': [dict(n=16, k=3, c=2), dict(n=24, k=5, c=1)],
         'complex:sinusoid-spikes:dirac-fourier': [dict(n=16, k=3, c=2), dict(n=15, k=5, c=1)], 'cosine-spikes:dirac-dct:gaussian': [dict(n=16, k=3, c=2, m=9)],
         'piecewise-cubic-poly:daubechies:gaussian': [dict(n=128, m=40, p=3, level=2)], 'signed-spikes:dirac:gaussian': [dict(n=20, m=8, k=3), dict(n=20, m=8, k=4, scale=0.5)],
         'complex:signed-spikes:dirac:gaussian': [dict(n=20, m=8, k=3)], 'blocks:heavi-side': [dict(n=16), dict(n=50)], 'blocks:normalized-heavi-side': [dict(n=16), dict(n=50)],
         'gaussian-spikes:dirac:gaussian': [dict(n=20, m=8, k=3), dict(n=40, m=16, k=8, scale=0.25)]}


def f_problem(name, kw):
    def fn(c, d, seed):
        with contextlib.redirect_stdout(io.StringIO()):
            p = pb.generate(name, jax.random.PRNGKey(int(seed)), **kw)
        c.static('name', p.name == name and name in pb.names())
        nx = lambda v: float(np.linalg.norm(np.asarray(v)))
        tol = 1e-5 if 'haar' in name or 'daub' in name else 1e-8      # cr.wavelets keeps its filters in single precision
        same = lambda u, v: np.shape(u) == np.shape(v) and nx(np.asarray(u) - np.asarray(v)) <= tol * (1 + nx(v))
        n = p.A.shape[1]
        rng = np.random.default_rng(int(seed))
        z = jnp.asarray(rng.standard_normal(n))
        c.static('A is Phi after Psi', same(p.A.times(z), p.Phi.times(p.Psi.times(z))))
        w = jnp.asarray(rng.standard_normal(p.A.shape[0]))
        c.static('adjoint of A', abs(complex(jnp.vdot(w, p.A.times(z))) - complex(jnp.vdot(p.A.trans(w), z))) <= 1e-8 * (1 + nx(w) * nx(z)))
        c.static('b = A x', same(p.A.times(p.x), p.b), '|A x - b| = %g' % nx(np.asarray(p.A.times(p.x)) - np.asarray(p.b)))
        y = p.reconstruct(p.x)
        if p.y is not None:
            c.static('reconstruct(x) = y', same(y, p.y))
        c.static('the reconstructed signal gives the measurements', same(p.Phi.times(y), p.b))
        s = kw.get('scale', 1)
        nz = np.asarray(p.x) != 0
        if 'k' in kw:
            kk = max(1, round(s * kw['k']))
            if 'c' in kw:
                n = kw['n']
                c.static('number of spikes and waves', nz[:n].sum() == kk and nz[n:].sum() == kw['c'])
            else:
                c.static('number of spikes', nz.sum() == kk)
        if 'signed' in name:
            v = np.asarray(p.x)[nz]
            c.static('signed unit spikes', bool(np.all(np.abs(v.real) == 1)) and bool(np.all(np.abs(v.imag) == 1) if np.iscomplexobj(v) else True))
        if 'm' in kw:
            c.static('number of measurements', np.shape(p.b) == (max(1, round(s * kw['m'])),))
        with contextlib.redirect_stdout(io.StringIO()) as f:
            pb.analyze_solution(p, Sol(x=p.x))
        c.static('analysis reports the sizes', 'm: %d, n: %d' % tuple(p.A.shape) in f.getvalue())
    return fn


for name, kws in SMALL.items():
    for i, kw in enumerate(kws):
        add('problem %s %d' % (name, i + 1), f_problem(name, kw), args=[SEED], deduce=False, num=[{}], samples=2, thorough_samples=6)

SHIM = loops.Random()
ANY = [0]


def any_basis(n, *a, **k):
    """a basis operator by its contract: linear, given by some matrix"""
    return crlop.matrix(havoc_shape((n, n), float, 'Q'))


def f_pded(mod, cplx=False):
    def fn(c, d, s):
        SHIM.draws.clear()
        kw = {q: d[q] for q in ('c', 'k', 'm', 'n') if q in d}
        with contextlib.redirect_stdout(io.StringIO()):
            p = mod.generate(SHIM.PRNGKey(0) if c.mode == 'trace' else jax.random.PRNGKey(int(s)), **kw)
        c.eq('b = A x', p.A.times(p.x), p.b)
        c.eq('the reconstructed signal gives the measurements', p.Phi.times(p.reconstruct(p.x)), p.b)
        c.eq('A is Phi after Psi', p.A.times(p.x), p.Phi.times(p.Psi.times(p.x)))
    return fn


PL = [(m, 'random', SHIM) for m in (prob003, prob004, prob005, prob007, prob008, prob011, simple)] + [(crlop, 'cosine_basis', any_basis), (crlop, 'fourier_basis', any_basis)]
for mod, dims in ((prob003, ('n', 'k', 'c')), (prob005, ('n', 'k', 'c', 'm')), (prob007, ('n', 'k', 'm')), (prob011, ('n', 'k', 'm'))):
    nm = mod.__name__.split('.')[-1]
    add('%s, deduced' % nm, f_pded(mod), args=[SEED], dims=dims, libs=PL, hyps=lambda p: [T.ge(v, 2) for v in p.values()] + [T.lt(p['k'], p['n'])] + ([T.lt(p['c'], p['n'])] if 'c' in p else []),
        grid=[tuple({'n': 4, 'k': 2, 'c': 2, 'm': 2}[q] for q in dims)], num=[tuple({'n': 12, 'k': 4, 'c': 3, 'm': 7}[q] for q in dims)], light=True)
