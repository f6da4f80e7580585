"""C07 residuals of greedy pursuits, C08 their supports and stopping, C09 least squares on the support."""
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse import lop
from cr.sparse.pursuit import mp, omp, iht, htp, sp, cosamp
from cr.sparse.pursuit import RecoverySolution
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_index, havoc_int

CONTRACTS = {k: [] for k in ('C07', 'C08', 'C09')}
X = {}          # values of the current contract, read by the loop invariants


def H(A):
    return jnp.conj(jnp.swapaxes(A, 0, 1))


def n2(r):
    return jnp.sum(jnp.real(jnp.conj(r) * r))


def gen_dict(rng, shape, style, env):
    A = rng.standard_normal(shape)
    if style in ('int', 'ones'):
        A = rng.integers(0, 2, shape) * 2. - 1 + 0.1 * rng.standard_normal(shape)
    return A / np.linalg.norm(A, axis=0)


def gen_udict(rng, shape, style, env):
    """atoms of any norm"""
    A = gen_dict(rng, shape, style, env)
    return A * rng.uniform(0.5, 1.25, shape[1]) if rng.random() < 0.6 else A


def gen_cdict(rng, shape, style, env):
    A = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    return A / np.linalg.norm(A, axis=0)


def gen_y(rng, shape, style, env):
    s = {'small': 0.01, 'big': 300.}.get(style, 1.)
    return s * rng.standard_normal(shape)


def gen_cy(rng, shape, style, env):
    return gen_y(rng, shape, style, env) + 1j * gen_y(rng, shape, style, env)


PHI = Param('Phi', ('m', 'n'), gen=gen_dict)
Y = Param('y', ('m',), gen=gen_y)
PHIU = Param('Phi', ('m', 'n'), gen=gen_udict)
PHIC = Param('Phi', ('m', 'n'), 'c', gen=gen_cdict)
YC = Param('y', ('m',), 'c', gen=gen_cy)
MU = Param('mu', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 0.4))
MAXIT = Param('maxit', (), 'i', lo=1, hi=7)
RTOL = Param('rtol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-8, -0.3))


# ------------------------------------------------------------------ loop invariant of the thresholding family
def gen_state(h, init):
    Phi, y = X['Phi'], X['ys']
    K = init.I.shape[0]
    I = havoc_index((K,), Phi.shape[1], distinct=X['distinct'])
    x_I = havoc(init.x_I, 'x_I')
    r = y - Phi[:, I] @ x_I
    f = dict(x_I=x_I, I=I, r=r, r_norm_sqr=havoc(n2(r), 'rns') if X['weak'] else n2(r), iterations=havoc_int(1, 'iterations'))
    for k in init._fields:
        if k not in f:
            f[k] = init.length if k == 'length' else havoc(getattr(init, k), k)
    return type(init)(**f)


def assume_state(s, init):
    return [s.iterations <= jnp.maximum(X['maxit'], 1)]


def distinct(I):
    K = I.shape[0]
    return jnp.all(jnp.logical_or(I[:, None] != I[None, :], jnp.eye(K, dtype=bool)))


def in_range(I, n):
    n = jax.core.dimension_as_value(n) if not isinstance(n, int) else n
    return jnp.logical_and(jnp.min(I) >= 0, jnp.max(I) < n)


def check_state(a, s, init):
    Phi, y = X['Phi'], X['ys']
    if not X['weak']:
        a.eq('r = y - Phi_I x_I', s.r, y - Phi[:, s.I] @ s.x_I)
        a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    a.true('iterations between 1 and the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['maxit'], 1)))
    a.true('support in range', in_range(s.I, Phi.shape[1]))
    if X['distinct']:
        a.true('support without repetition', distinct(s.I))


def go_state(s):
    """the relative tolerance is not met and the limit not reached"""
    go = jnp.logical_and(s.r_norm_sqr > X['rtol'] ** 2 * (1 if X['unit'] else n2(X['ys'])), s.iterations < X['maxit'])
    if X.get('least') is not None and 'I_prev' in s._fields:
        # a support that settled ends the loop after the minimum number of iterations
        go = jnp.logical_and(go, jnp.logical_or(jnp.any(s.I != s.I_prev), s.iterations < X['least']))
    return go


def thr(step=None, go=None):
    return [LoopInv(gen_state, check_state, assume_state, match=lambda s: hasattr(s, '_fields') and 'x_I' in s._fields, step=step, go=go)]


def scatter(I, v, n):
    return jnp.zeros(n, dtype=v.dtype).at[I].set(v)


def top(z, K):
    return jnp.argsort(jnp.abs(z))[:-K - 1:-1]


def top_new(z, I, K):
    return jnp.argsort(jnp.abs(z).at[I].set(-1))[:-K - 1:-1]


def admissible(c, Phi, y):
    """run mode: dictionaries with non-vanishing atoms, and a signal they can see"""
    if c.mode == 'run':
        c.assume(jnp.min(jnp.sum(jnp.abs(Phi) ** 2, axis=0)) > 1e-6)
        c.assume(jnp.min(jnp.abs(H(Phi) @ y)) > 1e-9)
        c.assume(n2(y) > 1e-12)


def lsq(A, b):
    return jnp.linalg.lstsq(A, b)[0]


def mu_of(Phi, h, I):
    Ah = Phi[:, I] @ h[I]
    return (h[I] @ h[I]) / (Ah @ Ah)


def prev_dense(Phi, s):
    return scatter(s.I, s.x_I, Phi.shape[1])


# one iteration of each algorithm, as documented: (Phi, y, K, state) -> (support, values)
def step_iht(Phi, y, K, s, mu):
    h = H(Phi) @ s.r
    z = prev_dense(Phi, s) + (mu if mu is not None else mu_of(Phi, h, s.I)) * h
    I = top(z, K)
    return I, z[I]


def step_htp(Phi, y, K, s, mu):
    I, _ = step_iht(Phi, y, K, s, mu)
    I = jnp.sort(I)
    return I, lsq(Phi[:, I], y)


def step_sp(Phi, y, K, s, mu):
    J = jnp.concatenate((s.I, top_new(H(Phi) @ s.r, s.I, K)))
    I = J[top(lsq(Phi[:, J], y), K)]
    return I, lsq(Phi[:, I], y)


def step_cosamp(Phi, y, K, s, mu):
    J = jnp.concatenate((s.I, top_new(H(Phi) @ s.r, s.I, 2 * K)))
    z = lsq(Phi[:, J], y)
    Ia = top(z, K)
    return J[Ia], z[Ia]


def first_iht(Phi, y, K, mu):
    h = H(Phi) @ y
    z = (mu if mu is not None else mu_of(Phi, h, jnp.arange(K))) * h
    I = top(z, K)
    return I, z[I]


def first_sp(Phi, y, K, mu):
    I = top(H(Phi) @ y, K)
    return I, lsq(Phi[:, I], y)


def first_cosamp(Phi, y, K, mu):
    J = top(H(Phi) @ y, 3 * K)
    z = lsq(Phi[:, J], y)
    Ia = top(z, K)
    return J[Ia], z[Ia]


ALG = {'iht': (iht, first_iht, step_iht), 'htp': (htp, first_iht, step_htp), 'sp': (sp, first_sp, step_sp), 'cosamp': (cosamp, first_cosamp, step_cosamp)}


class St:
    def __init__(self, I, x_I, r):
        self.I, self.x_I, self.r = I, x_I, r


def call(alg, form, Phi, y, K, mu, maxit, rtol, normalized, real=True):
    mod = ALG[alg][0]
    k = {}
    if alg in ('iht', 'htp'):
        k = dict(normalized=True) if normalized else dict(step_size=mu)
    if form == 'matrix':
        return mod.matrix_solve(Phi, y, K, max_iters=maxit, res_norm_rtol=rtol, **k)
    A = lop.Operator(times=lambda x: Phi @ x, trans=lambda z: H(Phi) @ z, shape=(Phi.shape[0], Phi.shape[1]), real=real)
    return mod.operator_solve(A, y, K, max_iters=maxit, res_norm_rtol=rtol, **k)


def setctx(alg, form, Phi, y, maxit, mu):
    ys = y
    if form == 'operator' and alg in ('sp', 'cosamp'):
        ys = (1. / jnp.sqrt(n2(y))) * y
    X.update(weak=False, mu=mu, Phi=Phi, ys=ys, maxit=maxit, distinct=alg in ('iht', 'htp'))


def f_resid(alg, form, K, normalized, real=True):
    def fn(c, d, Phi, y, mu, maxit, rtol):
        admissible(c, Phi, y)
        setctx(alg, form, Phi, y, maxit, mu)
        s = call(alg, form, Phi, y, K, mu, maxit, rtol, normalized, real)
        c.eq('residual is y minus the approximation', s.r, y - Phi[:, s.I] @ s.x_I)
        c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
        if c.mode == 'run':
            c.eq('residual is y - Phi x', s.r, y - Phi @ s.x)
            c.static('length', s.length == Phi.shape[1], s.length)
            if real and not normalized:
                mod = ALG[alg][0]
                t = mod.matrix_solve(Phi, y, K) if form == 'matrix' else mod.operator_solve(lop.matrix(Phi), y, K)
                c.eq('default options: residual', t.r, y - Phi @ t.x)
                c.eq('default options: reported norm', t.r_norm_sqr, n2(t.r))
    return fn


def f_support(alg, form, K, normalized, real=True):
    def fn(c, d, Phi, y, mu, maxit, rtol):
        admissible(c, Phi, y)
        setctx(alg, form, Phi, y, maxit, mu)
        X['weak'] = True
        X['rtol'], X['unit'] = rtol, form == 'operator' and alg in ('sp', 'cosamp')       # these scale the signal to unit norm
        settles = alg == 'htp' or (form == 'operator' and alg in ('sp', 'cosamp'))
        X['least'] = min(3 * K, 20) if settles else None
        s = call(alg, form, Phi, y, K, mu, maxit, rtol, normalized, real)
        c.static('K values on K indices', tuple(s.I.shape) == (K,) and tuple(s.x_I.shape) == (K,), (s.I.shape, s.x_I.shape))
        c.true('support in range', in_range(s.I, Phi.shape[1]))
        if c.mode == 'run' or X['distinct']:
            c.true('support without repetition', distinct(s.I))
        c.true('at least one iteration, at most the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(maxit, 1)))
        small = s.r_norm_sqr <= rtol ** 2 * n2(y)
        if c.mode == 'run':
            small = s.r_norm_sqr <= rtol ** 2 * n2(y) * (1 + 1e-9) + 1e-28
        stop = jnp.logical_or(small, s.iterations >= maxit)
        if settles:
            stop = jnp.logical_or(stop, s.iterations >= min(3 * K, 20))
        c.true('stops for a documented reason', stop)
        if c.mode == 'run':
            x = s.x
            c.true('x is K sparse', jnp.sum(x != 0) <= K)
            c.eq('x holds the values on the support', x[s.I], s.x_I)
            if int(s.iterations) > 1:
                t = call(alg, form, Phi, y, K, mu, int(s.iterations) - 1, rtol, normalized, real)
                c.true('went on only while the tolerance was not met', t.r_norm_sqr >= rtol ** 2 * n2(y) * (1 - 1e-9))
            if settles:
                L, before = 3 * K, None
                for k in range(1, L + 5):
                    t = call(alg, form, Phi, y, K, mu, k, 1e-12, normalized, real)
                    if int(t.iterations) < k or float(t.r_norm_sqr) < 1e-18 * float(n2(y)):
                        break
                    if before is not None and k - 1 >= L:
                        c.true('went on only while the support had not settled', jnp.any(before[-1] != before[-2]))
                    before = [t.I] if before is None else before + [t.I]
    return fn


def f_iter(alg, form, K, normalized, real=True):
    """the state after each iteration is one documented step from the state before it"""
    mod, first, step = ALG[alg]

    def fn(c, d, Phi, y, mu, rtol):
        mu_ = None if normalized else mu
        rt = 0.0
        admissible(c, Phi, y)
        setctx(alg, form, Phi, y, 6, mu)
        if c.mode == 'trace':
            call(alg, form, Phi, y, K, mu, 6, rtol, normalized, real)
            return
        n = Phi.shape[1]
        if alg in ('iht', 'htp') and not normalized:
            mod = ALG[alg][0]
            up = jnp.linalg.norm(Phi, 2)
            for t in (1, 3):
                s = mod.matrix_solve(Phi, y, K, max_iters=t, res_norm_rtol=0.) if form == 'matrix' else mod.operator_solve(lop.matrix(Phi), y, K, max_iters=t, res_norm_rtol=0.)
                q = call(alg, form, Phi, y, K, 0.98 / up, t, 0., False, real)
                c.eq('default step size is 0.98 of the inverse largest singular value (%d)' % t, s.x, q.x)
        prev = None
        for t in range(1, 6):
            s = call(alg, form, Phi, y, K, mu, t, rt, normalized, real)
            if int(s.iterations) < t:
                break
            if float(s.r_norm_sqr) < 1e-18 * float(n2(y)):
                break
            if prev is not None and normalized and float(jnp.max(jnp.abs((H(Phi) @ prev.r)[prev.I]))) < 1e-5 * float(jnp.sqrt(n2(y))):
                break               # converged on the support: the normalized step is 0/0
            I, v = first(Phi, y, K, mu_) if prev is None else step(Phi, y, K, prev, mu_)
            c.eq('estimate after iteration %d' % t, s.x, scatter(I, v, n))
            prev = St(s.I, s.x_I, s.r)
            if alg == 'sp' or (alg == 'htp' and t > 1):
                c.eq('the residual is orthogonal to the selected atoms', H(Phi[:, s.I]) @ s.r, jnp.zeros(K))
    return fn


def inv_first(alg, normalized, K):
    mod, first, step = ALG[alg]

    def chk(a, s, init):
        if s is init:
            Phi, ys = X['Phi'], X['ys']
            I, v = first(Phi, ys, K, None if normalized else X['mu'])
            n = Phi.shape[1]
            a.eq('first iteration', scatter(s.I, s.x_I, n), scatter(I, v, n))
        check_state(a, s, init)

    def step_chk(a, s, s2, init):
        Phi, ys = X['Phi'], X['ys']
        I, v = step(Phi, ys, K, s, None if normalized else X['mu'])
        n = Phi.shape[1]
        a.eq('support and values are one documented step', scatter(s2.I, s2.x_I, n), scatter(I, v, n))
    return [LoopInv(gen_state, chk, assume_state, match=lambda s: hasattr(s, '_fields') and 'x_I' in s._fields, step=step_chk)]


LIBS = [loops.LSTSQ]
for alg in ALG:
    for form in ('matrix', 'operator'):
        for normalized in ((False, True) if alg in ('iht', 'htp') else (False,)):
            for K in (1, 2):
                for real in ((True, False) if (form == 'operator' and alg in ('sp', 'cosamp')) else (True,)):
                    nm = '%s[%s%s,K=%d%s]' % (alg, form, ',normalized' if normalized else '', K, '' if real else ',complex')
                    ps = [PHIU, Y] if real else [PHIC, YC]
                    low = {'iht': K, 'htp': K, 'sp': 2 * K, 'cosamp': 3 * K}[alg]
                    kw = dict(dims=('m', 'n'), hyps=lambda p, low=low: [T.ge(p['n'], low + 1), T.ge(p['m'], low)], libs=LIBS, opaque_sort=True, light=True,
                              grid=[(low, low + 1)], num=[(low + 1, low + 2), (low + 3, 2 * low + 3), (8, 12)], samples=5, targets=('pursuit.%s.%s_solve' % (alg, form),))
                    CONTRACTS['C07'].append(Contract('residual ' + nm, f_resid(alg, form, K, normalized, real), args=ps + [MU, MAXIT, RTOL],
                                                     loops=thr(), **kw))
                    CONTRACTS['C08'].append(Contract('support ' + nm, f_support(alg, form, K, normalized, real), args=ps + [MU, MAXIT, RTOL],
                                                     loops=thr(go=go_state), **kw))
                    if real:
                        CONTRACTS['C09'].append(Contract('iteration ' + nm, f_iter(alg, form, K, normalized, real), args=ps + [MU, RTOL],
                                                         loops=inv_first(alg, normalized, K), **kw))


# ------------------------------------------------------------------ matching pursuit
def mp_gen(h, init):
    x = havoc(init.x, 'x')
    r = X['y'] - X['Phi'] @ x
    return type(init)(x=x, r=r, r_norm_sqr=havoc(n2(r), 'rns') if X['weak'] else n2(r), iterations=havoc_int(0, 'iterations'))


def mp_check(a, s, init):
    if not X['weak']:
        a.eq('r = y - Phi x', s.r, X['y'] - X['Phi'] @ s.x)
        a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    a.true('iterations between 0 and the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], 0)))


def mp_step(a, s, s2, init):
    Phi = X['Phi']
    h = H(Phi) @ s.r
    k = jnp.argmax(jnp.abs(h))
    a.eq('the best matching atom receives its correlation', s2.x, s.x.at[k].add(h[k]))
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def mp_inv(step=None, go=None):
    return [LoopInv(mp_gen, mp_check, lambda s, init: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=lambda s: hasattr(s, '_fields') and 'r_norm_sqr' in s._fields, step=step,
                    go=go)]


def mp_call(form, Phi, y, maxit, rtol):
    if form == 'matrix':
        return mp.matrix_solve(Phi, y, max_iters=maxit, res_norm_rtol=rtol)
    return mp.solve(lop.Operator(times=lambda x: Phi @ x, trans=lambda z: H(Phi) @ z, shape=(Phi.shape[0], Phi.shape[1])), y, max_iters=maxit, res_norm_rtol=rtol)


def f_mp_resid(form):
    def fn(c, d, Phi, y, maxit, rtol):
        X.update(Phi=Phi, y=y, maxit=maxit, weak=False)
        s = mp_call(form, Phi, y, maxit, rtol)
        c.eq('residual is y - Phi x', s.r, y - Phi @ s.x)
        c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
        if c.mode == 'run':
            c.eq('support and values rebuild x', jnp.zeros(Phi.shape[1]).at[s.I].set(s.x_I), s.x)
            c.static('length', s.length == Phi.shape[1])
    return fn


def f_mp_support(form):
    def fn(c, d, Phi, y, maxit, rtol):
        X.update(Phi=Phi, y=y, ys=y, maxit=maxit, weak=True, rtol=rtol, unit=False, least=None)
        s = mp_call(form, Phi, y, maxit, rtol)
        c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= maxit))
        small = s.r_norm_sqr <= rtol ** 2 * n2(y) * (1 + 1e-9) if c.mode == 'run' else s.r_norm_sqr <= rtol ** 2 * n2(y)
        c.true('stops for a documented reason', jnp.logical_or(small, s.iterations >= maxit))
        if c.mode == 'run':
            c.true('at most one new atom per iteration', jnp.sum(s.x != 0) <= s.iterations)
            if int(s.iterations) > 0:
                t = mp_call(form, Phi, y, int(s.iterations) - 1, rtol)
                c.true('went on only while the tolerance was not met', t.r_norm_sqr >= rtol ** 2 * n2(y) * (1 - 1e-9))
    return fn


def f_mp_iter(form):
    def fn(c, d, Phi, y, rtol):
        X.update(Phi=Phi, y=y, maxit=6, weak=False)
        if c.mode == 'trace':
            mp_call(form, Phi, y, 6, rtol)
            return
        x, r = jnp.zeros(Phi.shape[1]), y
        for t in range(1, 7):
            s = mp_call(form, Phi, y, t, 0.)
            h = H(Phi) @ r
            k = jnp.argmax(jnp.abs(h))
            x, r = x.at[k].add(h[k]), r - h[k] * Phi[:, k]
            if float(n2(r)) < 1e-12 * float(n2(y)):
                break
            c.eq('estimate after iteration %d' % t, s.x, x)
    return fn


def mp_dec(form):
    """the residual never grows: |r'|^2 = |r|^2 - h_k^2 for unit-norm atoms"""
    def step(a, s, s2, init):
        h = H(X['Phi']) @ s.r
        k = jnp.argmax(jnp.abs(h))
        a.eq('|r_new|^2 = |r|^2 - h_k^2', s2.r_norm_sqr, s.r_norm_sqr - h[k] ** 2)

    def fn(c, d, Phi, y, rtol):
        X.update(Phi=Phi, y=y, maxit=6, weak=False)
        c.assume(jnp.all(jnp.sum(Phi * Phi, axis=0) == 1) if c.mode == 'trace' else jnp.max(jnp.abs(jnp.sum(Phi * Phi, axis=0) - 1)) < 1e-9)
        if c.mode == 'trace':
            mp_call(form, Phi, y, 6, rtol)
            return
        last = n2(y)
        for t in range(1, 7):
            s = mp_call(form, Phi, y, t, 0.)
            c.true('the residual does not grow', s.r_norm_sqr <= last + 1e-12 * n2(y))
            last = s.r_norm_sqr
    return fn, mp_inv(step)


for form in ('matrix', 'operator'):
    nm = 'mp[%s]' % form
    kw = dict(dims=('m', 'n'), light=True, grid=[(2, 3)], num=[(3, 5), (5, 9), (8, 12)], samples=5,
              targets=('pursuit.mp.' + ('matrix_solve' if form == 'matrix' else 'solve'),))
    CONTRACTS['C07'].append(Contract('residual ' + nm, f_mp_resid(form), args=[PHIU, Y, MAXIT, RTOL], loops=mp_inv(), **kw))
    CONTRACTS['C08'].append(Contract('support ' + nm, f_mp_support(form), args=[PHIU, Y, MAXIT, RTOL], loops=mp_inv(go=go_state), **kw))
    CONTRACTS['C09'].append(Contract('iteration ' + nm, f_mp_iter(form), args=[PHIU, Y, RTOL], loops=mp_inv(mp_step), **kw))
    f, inv = mp_dec(form)
    CONTRACTS['C09'].append(Contract('energy ' + nm, f, args=[PHI, Y, RTOL], loops=inv, **kw))


# ------------------------------------------------------------------ orthogonal matching pursuit
def unit_atoms(c, Phi):
    g = jnp.sum(jnp.conj(Phi) * Phi, axis=0)
    c.assume(jnp.all(g == 1) if c.mode == 'trace' else jnp.max(jnp.abs(g - 1)) < 1e-9)


def spread_support(c, Phi, I):
    """run mode: the selected atoms are independent (the Cholesky factor exists)"""
    if c.mode == 'run':
        G = H(Phi[:, I]) @ Phi[:, I]
        c.assume(jnp.min(jnp.linalg.eigvalsh(G)) > 1e-6)


def f_omp_resid(K):
    def fn(c, d, Phi, y):
        unit_atoms(c, Phi)
        s = omp.matrix_solve(Phi, y, K)
        spread_support(c, Phi, s.I)
        c.eq('residual is y minus the approximation', s.r, y - Phi[:, s.I] @ s.x_I)
        c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
        if c.mode == 'run':
            c.eq('residual is y - Phi x', s.r, y - Phi @ s.x)
    return fn


def f_omp_support(K):
    def fn(c, d, Phi, y):
        unit_atoms(c, Phi)
        s = omp.matrix_solve(Phi, y, K)
        spread_support(c, Phi, s.I)
        c.static('K values on K indices', tuple(s.I.shape) == (K,) and tuple(s.x_I.shape) == (K,), (s.I.shape, s.x_I.shape))
        c.static('iterations and length', int(s.iterations) == K and s.length is Phi.shape[1] or s.length == Phi.shape[1], s.iterations)
        c.true('support in range', in_range(s.I, Phi.shape[1]))
        if c.mode == 'run':
            c.true('support without repetition', distinct(s.I))
            t = omp.solve(Phi, y, K)
            c.eq('compiled form agrees', t.x, s.x)
            Y2 = jnp.stack((y, 2 * y, -y), axis=1)
            t = omp.matrix_solve_multi(Phi, Y2, K)
            c.eq('multiple signals: coefficients', t.x_I, jnp.stack((s.x_I, 2 * s.x_I, -s.x_I)))
            c.eq('multiple signals: support', t.I, jnp.stack((s.I,) * 3))
    return fn


def f_omp_ls(K):
    def fn(c, d, Phi, y):
        unit_atoms(c, Phi)
        s = omp.matrix_solve(Phi, y, K)
        spread_support(c, Phi, s.I)
        if c.mode == 'trace' and K > 1:
            G = Phi[:, s.I].T @ Phi[:, s.I]
            c.assume(G[0, 1] ** 2 < 1)
        c.eq('the residual is orthogonal to every selected atom', Phi[:, s.I].T @ s.r, jnp.zeros(K))
        r = y
        for k in range(K):
            i = jnp.argmax(jnp.abs(Phi.T @ r))
            if k == 0 or c.mode == 'run':
                c.eq('atom %d is the best match of the residual' % k, s.I[k], i)
            J = s.I[:k + 1]
            if c.mode == 'run':
                r = y - Phi[:, J] @ lsq(Phi[:, J], y)
    return fn


def f_omp_operator(K):
    def fn(c, d, Phi, y, rtol):
        A = lop.Operator(times=lambda x: Phi @ x, trans=lambda z: H(Phi) @ z, shape=Phi.shape)
        s = omp.operator_solve(A, y, K, res_norm_rtol=rtol)
        spread_support(c, Phi, s.I)
        c.eq('residual is y minus the approximation', s.r, y - Phi[:, s.I] @ s.x_I)
        c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
        c.eq('the residual is orthogonal to every selected atom', Phi[:, s.I].T @ s.r, jnp.zeros(len(s.I)))
        c.true('support without repetition', distinct(s.I))
        c.static('one index per iteration', len(s.I) == len(s.x_I) == int(s.iterations) <= K, (s.I, s.iterations))
        c.true('stops for a documented reason', jnp.logical_or(s.r_norm_sqr <= rtol ** 2 * n2(y) * (1 + 1e-9), s.iterations >= K))
        if int(s.iterations) > 1:
            t = omp.operator_solve(A, y, int(s.iterations) - 1, res_norm_rtol=rtol)
            c.true('went on only while the tolerance was not met', t.r_norm_sqr >= rtol ** 2 * n2(y) * (1 - 1e-9))
        t = omp.matrix_solve(Phi, y, int(s.iterations))
        c.eq('operator and matrix forms agree', s.x, t.x)
        c.eq('same support', s.I, t.I)
    return fn


def f_omp_opstep(k):
    """one iteration of the operator form, from any consistent state with k atoms"""
    def fn(c, d, Phi, y, I, x_I):
        from cr.sparse._src.pursuit import omp as src
        unit_atoms(c, Phi)
        G = Phi[:, I].T @ Phi[:, I]
        L = jnp.ones((1, 1))
        if k == 2:
            c.assume(G[0, 1] ** 2 < 1 - (1e-9 if c.mode == 'run' else 0))
            L = jnp.array([[1., 0.], [G[0, 1], jnp.sqrt(1 - G[0, 1] ** 2)]])
        r = y - Phi[:, I] @ x_I
        st = src.OMPState(x_I=x_I, I=I, r=r, Phi_I=Phi[:, I], L=L, r_norm_sqr=n2(r), iterations=k)
        p = Phi.T @ y
        s = src._operator_step(lambda x: Phi @ x, lambda z: Phi.T @ z, y, p, jnp.zeros(Phi.shape[1]), st)
        spread_support(c, Phi, s.I)
        c.eq('old atoms kept', s.I[:k], I)
        c.eq('new atom is the best match', s.I[k], jnp.argmax(jnp.abs(Phi.T @ r)))
        c.eq('sub-dictionary', s.Phi_I, Phi[:, s.I])
        c.eq('residual', s.r, y - Phi[:, s.I] @ s.x_I)
        c.eq('residual norm', s.r_norm_sqr, n2(s.r))
        c.static('iterations', s.iterations == k + 1)
        if k == 1:
            if c.mode == 'trace':
                c.assume((Phi[:, s.I].T @ Phi[:, s.I])[0, 1] ** 2 < 1)
            c.eq('the residual is orthogonal to every selected atom', Phi[:, s.I].T @ s.r, jnp.zeros(k + 1))
    return fn


def f_chol(k):
    def fn(c, d, L, v):
        from cr.sparse.pursuit import gram_chol_update
        L = jnp.tril(L)
        G = L @ L.T
        w = jax.scipy.linalg.solve_triangular(L, v, lower=True) if c.mode == 'run' else None
        if c.mode == 'run':
            c.assume(jnp.min(jnp.abs(jnp.diag(L))) > 1e-3)
            c.assume(w @ w < 0.999)
        N = gram_chol_update(L, v)
        c.eq('keeps the old factor', N[:k, :k], L)
        c.eq('last column is zero above the diagonal', N[:k, k], jnp.zeros(k))
        if c.mode == 'trace':
            c.assume(jnp.all(jnp.diag(L) != 0))
            for j in range(k):
                c.assume(L[j, j] != 0)
            c.assume(N[k, :k] @ N[k, :k] < 1)
        GG = N @ N.T
        c.eq('new correlations', GG[k, :k], v)
        c.eq('unit norm of the new atom', GG[k, k], 1.)
        c.eq('old Gram matrix', GG[:k, :k], G)
    return fn


for K in (1, 2, 3, 4):
    kw = dict(dims=('m', 'n'), args=[PHI, Y], hyps=lambda p, K=K: [T.ge(p['n'], K + 1), T.ge(p['m'], K)], light=True, grid=[(K + 1, K + 2)],
              num=[(K + 1, K + 2), (K + 3, K + 6), (8, 12)], samples=5, targets=('pursuit.omp.matrix_solve', 'pursuit.gram_chol_update'))
    CONTRACTS['C07'].append(Contract('residual omp[matrix,K=%d]' % K, f_omp_resid(K), deduce=K <= 3, **kw))
    CONTRACTS['C08'].append(Contract('support omp[matrix,K=%d]' % K, f_omp_support(K), **kw))
    CONTRACTS['C09'].append(Contract('least squares omp[matrix,K=%d]' % K, f_omp_ls(K), deduce=K <= 2, **kw))
    CONTRACTS['C09'].append(Contract('least squares omp[operator,K=%d]' % K, f_omp_operator(K), dims=('m', 'n'), args=[PHI, Y, RTOL], deduce=False,
                                     grid=[(K + 1, K + 2)], num=[(K + 1, K + 2), (K + 3, K + 6), (8, 12)], samples=5, targets=('pursuit.omp.operator_solve',)))
    CONTRACTS['C09'].append(Contract('Cholesky update [%d atoms]' % K, f_chol(K), args=[
        Param('L', (K, K), gen=lambda rng, shape, style, env: rng.standard_normal(shape) * 0.4 + np.eye(shape[0])), Param('v', (K,), gen=lambda rng, shape, style, env: rng.uniform(-.5, .5, shape))],
        samples=10, targets=('pursuit.gram_chol_update',)))
for k in (1, 2):
    CONTRACTS['C09'].append(Contract('iteration omp[operator,%d atoms]' % k, f_omp_opstep(k), dims=('m', 'n'),
                                     args=[PHI, Y, Param('I', (k,), 'i', lo=0, hi='n', distinct=True), Param('x_I', (k,))],
                                     hyps=lambda p: [T.ge(p['n'], 3), T.ge(p['m'], 3)], light=True, grid=[(3, 4)], num=[(4, 6), (6, 9)], samples=6, targets=('pursuit.omp._operator_step',)))


# ------------------------------------------------------------------ executed: exact recovery and agreement of the public forms
def gen_orth(rng, shape, style, env):
    m, n = shape
    Q = np.linalg.qr(rng.standard_normal((m, m)))[0]
    if style == 'int':
        Q = np.eye(m)
    if style == 'ones':
        Q = np.eye(m)[:, ::-1]
    return Q[:, :n]


def gen_sparse(K):
    def gen(rng, shape, style, env):
        n = shape[0]
        x = np.zeros(n)
        I = np.arange(n - K, n) if style == 'int' else rng.permutation(n)[:K]
        x[I] = rng.choice([-1., 1.], K) * rng.uniform(1, 4, K) * np.arange(1, K + 1)
        return x
    return gen


def f_exact(alg, form, K):
    def fn(c, d, Q, x0, noise):
        y = Q @ x0
        n = Q.shape[1]
        A = lop.matrix(Q)
        kw = {'iht': dict(step_size=1.), 'htp': dict(step_size=1.)}.get(alg, {})
        if alg == 'mp':
            f = (lambda y, **k: mp.matrix_solve(Q, y, **k)) if form == 'matrix' else (lambda y, **k: mp.solve(A, y, **k))
        elif alg == 'omp':
            f = (lambda y, **k: omp.matrix_solve(Q, y, K)) if form == 'matrix' else (lambda y, **k: omp.operator_solve(A, y, K))
        else:
            mod = ALG[alg][0]
            f = (lambda y, **k: mod.matrix_solve(Q, y, K, **kw, **k)) if form == 'matrix' else (lambda y, **k: mod.operator_solve(A, y, K, **kw, **k))
        s = f(y)
        c.eq('a K-sparse vector in an orthonormal dictionary is recovered', s.x, x0)
        c.eq('with zero residual', s.r, jnp.zeros(y.shape))
        # the best K-term approximation of a signal with a small tail
        z = x0 + 0.01 * noise * (x0 == 0)
        if alg != 'mp':
            for t in (1, 2, 3, 6):
                s = f(Q @ z, max_iters=t)
                c.eq('the K largest coefficients are kept (limit %d)' % t, s.x, x0)
        if alg not in ('mp', 'omp'):
            if form == 'matrix':
                j = mod.matrix_solve_jit(Q, y, K, **kw)
            else:
                j = mod.operator_solve_jit(A, y, K, **kw)
            c.eq('compiled form agrees', j.x, x0)
            if form == 'operator':
                j = mod.solve(A, y, K, **kw)
                c.eq('default form agrees', j.x, x0)
            c.static('length', j.length == n)
            c.static('printable', 'iterations' in str(j))
    return fn


for alg in ('mp', 'omp', 'iht', 'htp', 'sp', 'cosamp'):
    for form in ('matrix', 'operator'):
        for K in (1, 3):
            sz = [(3 * K + 1, 3 * K + 1), (3 * K + 4, 3 * K + 2)]
            CONTRACTS['C09'].append(Contract('exact recovery %s[%s,K=%d]' % (alg, form, K), f_exact(alg, form, K), dims=('m', 'n'),
                                             args=[Param('Q', ('m', 'n'), gen=gen_orth), Param('x0', ('n',), gen=gen_sparse(K)), Param('noise', ('n',), within=(-1, 1))],
                                             sym=False, deduce=False, grid=sz[:1], num=sz, samples=4, styles=('normal', 'int', 'ones', 'big'), targets=('pursuit.' + alg,)))
