"""C10 conjugate gradients, C11 solvers for (sparse) linear systems: ISTA, FISTA, LSQR, power iterations, Lanczos."""
import jax
import jax.numpy as jnp
import numpy as np
import cr.sparse as crs
from cr.sparse import lop, sls
from cr.sparse.opt import cg, pcg
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_int, havoc_shape, assume

CONTRACTS = {k: [] for k in ('C10', 'C11')}
X = {}


def n2(r):
    return jnp.sum(jnp.real(jnp.conj(r) * r))


def gen_psd(rng, shape, style, env):
    n = shape[0]
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    d = {'int': np.ones(n), 'big': rng.uniform(1, 100, n), 'small': rng.uniform(0.01, 0.1, n)}.get(style, rng.uniform(0.5, 3, n))
    return (Q * d) @ Q.T


def gen_vec(rng, shape, style, env):
    return rng.standard_normal(shape) * {'big': 50., 'small': 0.02}.get(style, 1.)


S_ = Param('S', ('n', 'n'), gen=gen_psd)
B_ = Param('b', ('n',), gen=gen_vec)
X0 = Param('x0', ('n',), gen=gen_vec)
MAXIT = Param('maxit', (), 'i', lo=0, hi=8)
RTOL = Param('rtol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-9, -0.3))


def sym(c, S):
    return (S + S.T) / 2


# ------------------------------------------------------------------ conjugate gradients
def is_state(*fields):
    return lambda s: hasattr(s, '_fields') and all(f in s._fields for f in fields)


def cg_gen(h, init):
    A, b = X['A'], X['b']
    x, p = havoc(init.x, 'x'), havoc(init.p, 'p')
    r = b - A @ x
    return type(init)(x=x, r=r, p=p, r_norm_sqr=n2(r), iterations=havoc_int(0, 'iterations'))


def cg_check(a, s, init):
    A, b = X['A'], X['b']
    a.eq('r = b - A x', s.r, b - A @ s.x)
    a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    a.true('iterations between 0 and the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], 0)))
    if s is init:
        a.eq('first direction is the residual', s.p, s.r)


def cg_assume(s, init):
    return [s.iterations <= jnp.maximum(X['maxit'], 0)]


def cg_step(a, s, s2, init):
    """one documented iteration"""
    A = X['A']
    Ap = A @ s.p
    al = n2(s.r) / (s.p @ Ap)
    r2 = s.r - al * Ap
    a.eq('solution moves along the direction by the exact line search step', s2.x, s.x + al * s.p)
    a.eq('next direction', s2.p, r2 + n2(r2) / n2(s.r) * s.p)
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def call_cg(form, A, b, x0, maxit, rtol):
    if form == 'from':
        return cg.solve_from(A, b, x0, max_iters=maxit, res_norm_rtol=rtol)
    M = X.get('M')
    kw = {} if M is None else dict(M=lambda v: M @ v)
    return pcg.solve_from(lambda v: A @ v, b, x0, max_iters=maxit, tol=rtol, **kw)


def both(*a):
    r = a[0]
    for b in a[1:]:
        r = jnp.logical_and(r, b)
    return r


def cg_go(s):
    return both(s.r_norm_sqr > X['rtol'] ** 2 * n2(X['b']), s.iterations < X['maxit'])


def went_on(c, t, ok):
    """run mode: the state one iteration before the end did not meet a stopping rule"""
    c.true('went on only while no stopping rule held', ok)


def f_cg(c, d, S, b, x0, maxit, rtol):
    A = sym(c, S)
    X.update(A=A, b=b, maxit=maxit, rtol=rtol)
    s = cg.solve_from(A, b, x0, max_iters=maxit, res_norm_rtol=rtol)
    c.eq('residual is b - A x', s.r, b - A @ s.x)
    c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
    c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(maxit, 0)))
    lim = rtol ** 2 * n2(b)
    c.true('stops on the limit or on the tolerance', jnp.logical_or(s.r_norm_sqr <= (lim * (1 + 1e-9) + 1e-30 if c.mode == 'run' else lim), s.iterations >= maxit))
    if c.mode == 'run' and int(s.iterations) > 0:
        t = cg.solve_from(A, b, x0, max_iters=int(s.iterations) - 1, res_norm_rtol=rtol)
        went_on(c, t, t.r_norm_sqr >= lim * (1 - 1e-9))
        xs = jnp.round(4 * x0) / 4
        t = cg.solve_from(jnp.eye(len(b)), xs, xs, max_iters=maxit)
        c.true('an exact start is returned as it is', both(t.iterations == 0, jnp.all(t.x == xs)))


def f_cg_iter(c, d, S, b, x0, rtol):
    A = sym(c, S)
    X.update(A=A, b=b, maxit=6)
    if c.mode == 'trace':
        cg.solve_from(A, b, x0, max_iters=6, res_norm_rtol=rtol)
        return
    x, r = x0, b - A @ x0
    p = r
    f = lambda x: 0.5 * x @ A @ x - b @ x
    for t in range(1, 1 + min(d['n'], 5)):
        if float(n2(r)) < 1e-12 * float(n2(b)):
            break
        Ap = A @ p
        al = n2(r) / (p @ Ap)
        x1, r1 = x + al * p, r - al * Ap
        p = r1 + n2(r1) / n2(r) * p
        s = cg.solve_from(A, b, x0, max_iters=t, res_norm_rtol=0.)
        c.eq('estimate after iteration %d' % t, s.x, x1)
        c.true('the quadratic does not increase', f(s.x) <= f(x) + 1e-9 * (1 + abs(f(x))))
        x, r = x1, r1


def conj_gen(h, init):
    r = havoc(init.r, 'r')
    s = type(init)(x=havoc(init.x, 'x'), r=r, p=r, r_norm_sqr=n2(r), iterations=havoc_int(0, 'iterations'))
    # ghost: the previous direction q, r = p - g q, q conjugate to p and orthogonal to r
    q, g = havoc(init.p, 'q'), havoc(init.r_norm_sqr, 'g')
    p = s.r + g * q
    X['q'] = q
    return s._replace(p=p)


def conj_assume(s, init):
    A, q = X['A'], X['q']
    return cg_assume(s, init) + [s.p @ s.r == n2(s.r), q @ s.r == 0, q @ (A @ s.p) == 0, s.p @ (A @ s.p) != 0, n2(s.r) != 0]


def conj_check(a, s, init):
    a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    if s is init:
        a.eq('first direction is the residual', s.p, s.r)


def conj_step(a, s, s2, init):
    A = X['A']
    a.eq('ghost: p_new = r_new + beta p', s2.p, s2.r + s2.r_norm_sqr / s.r_norm_sqr * s.p)
    a.eq('r_new is orthogonal to p', s.p @ s2.r, 0.)
    a.eq('<p_new, r_new> = |r_new|^2', s2.p @ s2.r, n2(s2.r))
    a.eq('successive residuals are orthogonal', s.r @ s2.r, 0.)
    a.eq('successive directions are conjugate', s.p @ (A @ s2.p), 0.)


def f_cg_conj(c, d, S, b, x0, rtol):
    A = sym(c, S)
    X.update(A=A, b=b, maxit=6)
    if c.mode == 'trace':
        cg.solve_from(A, b, x0, max_iters=6, res_norm_rtol=rtol)
        return
    prev = cg.solve_from(A, b, x0, max_iters=0, res_norm_rtol=0.)
    for t in range(1, min(d['n'], 4) + 1):
        s = cg.solve_from(A, b, x0, max_iters=t, res_norm_rtol=0.)
        if float(s.r_norm_sqr) < 1e-12 * float(n2(b)):
            break
        nb = jnp.sqrt(prev.r_norm_sqr)
        c.eq('successive residuals are orthogonal', s.r @ prev.r / (nb * jnp.sqrt(s.r_norm_sqr)), 0.)
        pn = jnp.sqrt((prev.p @ A @ prev.p) * (s.p @ A @ s.p))
        c.eq('successive directions are conjugate', prev.p @ A @ s.p / pn, 0.)
        prev = s


def f_cg_exact(c, d, S, b, x0):
    A = sym(c, S)
    n = d['n']
    xs = jnp.linalg.solve(A, b)
    for s in (cg.solve_from(A, b, x0, max_iters=3 * n + 3, res_norm_rtol=1e-12), cg.solve_from_jit(A, b, x0, max_iters=3 * n + 3, res_norm_rtol=1e-12),
              cg.solve(A, b, max_iters=3 * n + 3, res_norm_rtol=1e-12), cg.solve_jit(A, b, max_iters=3 * n + 3, res_norm_rtol=1e-12)):
        c.eq('the system is solved', s.x, xs)
    s = cg.solve(A, b)
    c.true('default options meet the default tolerance or the default limit', jnp.logical_or(n2(b - A @ s.x) <= 1.0001e-8 * n2(b) + 1e-28, s.iterations >= n))
    op = lambda v: A @ v
    D = jnp.diag(1 / jnp.diag(A))
    for s in (pcg.solve_from(op, b, x0, max_iters=3 * n + 4, tol=1e-12), pcg.solve(op, b, max_iters=3 * n + 4, tol=1e-12),
              pcg.solve_from_jit(op, b, x0, max_iters=3 * n + 4, tol=1e-12), pcg.solve_jit(op, b, max_iters=3 * n + 4, tol=1e-12),
              pcg.solve_from(op, b, x0, max_iters=3 * n + 4, tol=1e-12, M=lambda v: D @ v), pcg.solve(op, b, max_iters=3 * n + 4, tol=1e-12, M=lambda v: D @ v)):
        c.eq('pcg: the system is solved', s.x, xs)
    big = 1e3 * jnp.sqrt(n2(b))
    s = pcg.solve_from(op, b, jnp.zeros(n), max_iters=20, tol=1e-12, atol=big)
    c.eq('pcg: an absolute tolerance above |b| accepts the start', s.x, jnp.zeros(n))


kw = dict(dims=('n',), light=True, grid=[1, 2, 3], num=[2, 4, 7], samples=6, targets=('opt.cg.solve_from',))
CGI = lambda gen, asm, step=None, check=cg_check, go=None: [LoopInv(gen, check, asm, match=is_state('p', 'r_norm_sqr'), step=step, go=go)]
CONTRACTS['C10'] += [
    Contract('cg residual and stopping', f_cg, args=[S_, B_, X0, MAXIT, RTOL], loops=CGI(cg_gen, cg_assume, go=cg_go), **kw),
    Contract('cg iteration', f_cg_iter, args=[S_, B_, X0, RTOL], loops=CGI(cg_gen, cg_assume, cg_step), **kw),
    Contract('cg conjugacy', f_cg_conj, args=[S_, B_, X0, RTOL], loops=CGI(conj_gen, conj_assume, conj_step, conj_check), **kw),
    Contract('cg and pcg solve the system', f_cg_exact, args=[S_, B_, X0], dims=('n',), sym=False, deduce=False, grid=[1, 2, 3, 5], num=[2, 6, 9], samples=6,
             targets=('opt.cg.solve', 'opt.cg.solve_from_jit', 'opt.pcg.solve', 'opt.pcg.solve_from_jit')),
]


# ------------------------------------------------------------------ preconditioned conjugate gradients
def pcg_gen(h, init):
    A, b, M = X['A'], X['b'], X['M']
    x, p = havoc(init.x, 'x'), havoc(init.p, 'p')
    r = b - A @ x
    z = r if M is None else M @ r
    return type(init)(x=x, r=r, p=p, gamma=r @ z, iterations=havoc_int(1, 'iterations'))


def pcg_check(a, s, init):
    A, b, M = X['A'], X['b'], X['M']
    a.eq('r = b - A x', s.r, b - A @ s.x)
    a.eq('gamma = <r, M r>', s.gamma, s.r @ (s.r if M is None else M @ s.r))
    a.true('iterations between 1 and the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['maxit'], 1)))
    if s is init:
        a.eq('first direction is the preconditioned residual', s.p, s.r if M is None else M @ s.r)


def pcg_step(a, s, s2, init):
    A, M = X['A'], X['M']
    Ap = A @ s.p
    al = s.gamma / (s.p @ Ap)
    r2 = s.r - al * Ap
    z2 = r2 if M is None else M @ r2
    a.eq('solution', s2.x, s.x + al * s.p)
    a.eq('next direction', s2.p, z2 + (r2 @ z2) / s.gamma * s.p)
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def pcg_kw(M):
    return {} if M is None else dict(M=lambda v: M @ v)


def f_pcg(prec, iterate):
    def fn(c, d, S, b, x0, *rest):
        A = sym(c, S)
        if prec:
            M, rest = rest[0], rest[1:]
            M = jnp.diag(M) if M.ndim == 1 else M
        else:
            M = None
        if iterate:
            X.update(A=A, b=b, M=M, maxit=6)
            if c.mode == 'trace':
                pcg.solve_from(lambda v: A @ v, b, x0, max_iters=6, tol=rest[0], **pcg_kw(M))
                return
            x, r = x0, b - A @ x0
            z = r if M is None else M @ r
            p, ga = z, r @ z
            for t in range(1, 1 + min(d['n'], 4)):
                if float(n2(r)) < 1e-12 * float(n2(b)):
                    break
                Ap = A @ p
                al = ga / (p @ Ap)
                x, r = x + al * p, r - al * Ap
                z = r if M is None else M @ r
                p, ga = z + (r @ z) / ga * p, r @ z
                s = pcg.solve_from(lambda v: A @ v, b, x0, max_iters=t + 1, tol=0., **pcg_kw(M))
                c.eq('estimate after iteration %d' % t, s.x, x)
            return
        maxit, rtol, atol = rest
        X.update(A=A, b=b, M=M, maxit=maxit, rtol=rtol, atol=atol)
        s = pcg.solve_from(lambda v: A @ v, b, x0, max_iters=maxit, tol=rtol, atol=atol, **pcg_kw(M))
        c.eq('residual is b - A x', s.r, b - A @ s.x)
        c.eq('gamma is the energy of the preconditioned residual', s.gamma, s.r @ (s.r if M is None else M @ s.r))
        c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(maxit, 1)))
        lim = jnp.maximum(rtol ** 2 * n2(b), atol ** 2)
        c.true('stops on the limit or on the tolerances', jnp.logical_or(n2(s.r) <= (lim * (1 + 1e-9) + 1e-30 if c.mode == 'run' else lim), s.iterations >= maxit))
        if c.mode == 'run' and int(s.iterations) > 1:
            t = pcg.solve_from(lambda v: A @ v, b, x0, max_iters=int(s.iterations) - 1, tol=rtol, atol=atol, **pcg_kw(M))
            went_on(c, t, n2(t.r) >= lim * (1 - 1e-9))
            xs = jnp.round(4 * x0) / 4
            t = pcg.solve_from(lambda v: v, xs, xs, max_iters=maxit, tol=rtol, atol=atol, **pcg_kw(M))
            c.true('an exact start is returned as it is', both(t.iterations == 1, jnp.all(t.x == xs)))
    return fn


ATOL = Param('atol', (), nonneg=True, gen=lambda rng, shape, style, env: 0. if style in ('normal', 'big') else 10. ** rng.uniform(-6, 1))
MD = Param('M', ('n',), pos=True)
pcg_go = lambda s: both(n2(s.r) > jnp.maximum(X['rtol'] ** 2 * n2(X['b']), X['atol'] ** 2), s.iterations < X['maxit'])
PI = lambda step=None, go=None: [LoopInv(pcg_gen, pcg_check, lambda s, init: [s.iterations <= jnp.maximum(X['maxit'], 1)], match=is_state('p', 'gamma'), step=step, go=go)]
kw = dict(dims=('n',), light=True, grid=[1, 2], num=[2, 4, 7], samples=6, targets=('opt.pcg.solve_from',))
for prec in (False, True):
    nm = ' with preconditioner' if prec else ''
    pm = [MD] if prec else []
    CONTRACTS['C10'] += [
        Contract('pcg residual and stopping' + nm, f_pcg(prec, False), args=[S_, B_, X0] + pm + [MAXIT, RTOL, ATOL], loops=PI(go=pcg_go), **kw),
        Contract('pcg iteration' + nm, f_pcg(prec, True), args=[S_, B_, X0] + pm + [RTOL], loops=PI(pcg_step), **kw)]


# ------------------------------------------------------------------ ISTA and FISTA
def soft(x, t):
    if isinstance(x, jax.core.Tracer) and X.get('trace'):
        return jax.nn.sigmoid(x) + t        # the verifier leaves this function uninterpreted: any elementwise threshold function
    return jnp.maximum(0, x - t) + jnp.minimum(0, x + t)


def mat(A, real=True):
    return lop.Operator(times=lambda x: A @ x, trans=lambda y: jnp.conj(A.T) @ y, shape=(A.shape[0], A.shape[1]), real=real)


def ista_gen(h, init):
    x = havoc(init.x, 'x')
    r = X['b'] - X['A'] @ x
    f = dict(x=x, r=r, r_norm_sqr=n2(r), iterations=havoc_int(0, 'iterations'), x_change_norm=havoc(jnp.asarray(1.), 'dx'))
    if 'z' in init._fields:
        z = havoc(init.x, 'z')
        f.update(z=z, r_z=X['b'] - X['A'] @ z, t=havoc(jnp.asarray(1.), 't'))
    return type(init)(**f)


def ista_check(a, s, init):
    A, b = X['A'], X['b']
    a.eq('r = b - A x', s.r, b - A @ s.x)
    a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    a.true('iterations between 0 and the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], 0)))
    if 'z' in init._fields:
        a.eq('r_z = b - A z', s.r_z, b - A @ s.z)
        if s is init:
            a.eq('starts without momentum', s.t, 1.)
            a.eq('starts at x', s.z, s.x)


def ista_step(a, s, s2, init):
    A, b, mu, tau = X['A'], X['b'], X['mu'], X['tau']
    base = s.z if 'z' in init._fields else s.x
    g = base + mu * (A.T @ (b - A @ base))
    B = X.get('B')
    xn = soft(g, tau) if B is None else B @ soft(B.T @ g, tau)
    a.eq('gradient step, then threshold', s2.x, xn)
    a.eq('reported change', s2.x_change_norm ** 2, n2(s2.x - s.x))
    a.true('one more iteration', s2.iterations == s.iterations + 1)
    if 'z' in init._fields:
        t2 = (1 + jnp.sqrt(1 + 4 * s.t ** 2)) / 2
        a.eq('momentum coefficient', s2.t, t2)
        a.eq('extrapolated point', s2.z, s2.x + (s.t - 1) / t2 * (s2.x - s.x))


def ista_go(s):
    return both(s.r_norm_sqr > X['rtol'] ** 2 * n2(X['b']), s.x_change_norm > X['xtol'], s.iterations < X['maxit'])


def ista_inv(step=None, go=None):
    return [LoopInv(ista_gen, ista_check, lambda s, init: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=is_state('x_change_norm'), step=step, go=go)]


def ista_call(alg, A, b, x0, mu, tau, B, **kw):
    f = {'ista': sls.ista, 'fista': sls.fista, 'ista_jit': sls.ista_jit, 'fista_jit': sls.fista_jit}[alg]
    if B is not None:
        kw['basis'] = mat(B)
    return f(mat(A), b, x0, mu, threshold_func=lambda i, v: soft(v, tau), **kw)


def f_ista(alg):
    def fn(c, d, A, b, x0, mu, tau, maxit, rtol, xtol):
        X.update(A=A, b=b, maxit=maxit, mu=mu, tau=tau, B=None, trace=c.mode == 'trace', rtol=rtol, xtol=xtol)
        s = ista_call(alg, A, b, x0, mu, tau, None, res_norm_rtol=rtol, x_norm_change_tol=xtol, max_iters=maxit)
        c.eq('residual is b - A x', s.r, b - A @ s.x)
        c.eq('reported norm is that of the residual', s.r_norm_sqr, n2(s.r))
        c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= maxit))
        lim = rtol ** 2 * n2(b)
        if c.mode == 'run':
            lim = lim * (1 + 1e-9) + 1e-28
        c.true('stops for a documented reason', jnp.logical_or(jnp.logical_or(s.r_norm_sqr <= lim, s.x_change_norm <= xtol), s.iterations >= maxit))
        if c.mode == 'run' and int(s.iterations) > 0:
            t = ista_call(alg, A, b, x0, mu, tau, None, res_norm_rtol=rtol, x_norm_change_tol=xtol, max_iters=int(s.iterations) - 1)
            went_on(c, t, both(t.r_norm_sqr >= rtol ** 2 * n2(b) * (1 - 1e-9), t.x_change_norm >= xtol * (1 - 1e-9)))
    return fn


def f_ista_iter(alg, basis):
    def fn(c, d, A, b, x0, mu, tau, *rest):
        B = rest[0] if basis else None
        X.update(A=A, b=b, maxit=5, mu=mu, tau=tau, B=B, trace=c.mode == 'trace')
        if c.mode == 'trace':
            ista_call(alg, A, b, x0, mu, tau, B, res_norm_rtol=1e-3, x_norm_change_tol=1e-10, max_iters=5)
            return
        x, z, t = x0, x0, 1.
        for k in range(1, 6):
            g = z + mu * (A.T @ (b - A @ z))
            xn = soft(g, tau) if B is None else B @ soft(B.T @ g, tau)
            t2 = (1 + np.sqrt(1 + 4 * t ** 2)) / 2
            z = xn + (t - 1) / t2 * (xn - x) if alg == 'fista' else xn
            dx = jnp.sqrt(n2(xn - x))
            x, t = xn, t2
            s = ista_call(alg, A, b, x0, mu, tau, B, res_norm_rtol=0., x_norm_change_tol=-1., max_iters=k)
            c.eq('estimate after iteration %d' % k, s.x, x)
            c.eq('reported change after iteration %d' % k, s.x_change_norm, dx)
            c.static('iterations', int(s.iterations) == k)
    return fn


def gen_mat(rng, shape, style, env):
    A = rng.standard_normal(shape) * {'big': 3., 'small': 0.1}.get(style, 1.)
    return A


AMN = Param('A', ('m', 'n'), gen=gen_mat)
BM = Param('b', ('m',), gen=gen_vec)
MU = Param('mu', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.005, 0.05))
TAU = Param('tau', (), nonneg=True, gen=lambda rng, shape, style, env: rng.uniform(0, 0.05))
XT = Param('xtol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-9, -2))
BN = Param('B', ('n', 'n'), gen=lambda rng, shape, style, env: np.linalg.qr(rng.standard_normal(shape))[0])
kw = dict(dims=('m', 'n'), light=True, grid=[(1, 1), (2, 3)], num=[(2, 3), (5, 4), (6, 9)], samples=5)
for alg in ('ista', 'fista'):
    CONTRACTS['C11'].append(Contract(alg + ' residual and stopping', f_ista(alg), args=[AMN, BM, X0, MU, TAU, MAXIT, RTOL, XT], loops=ista_inv(go=ista_go), targets=('sls.' + alg,), **kw))
    for basis in (False, True):
        CONTRACTS['C11'].append(Contract(alg + ' iteration' + (' with a basis' if basis else ''), f_ista_iter(alg, basis), args=[AMN, BM, X0, MU, TAU] + ([BN] if basis else []),
                                         loops=ista_inv(ista_step), targets=('sls.' + alg,), **kw))


# ------------------------------------------------------------------ power iterations
def pw_gen(h, init):
    return type(init)(v=havoc(init.v, 'v'), old_estimate=havoc(jnp.asarray(1.), 'old'), new_estimate=havoc(jnp.asarray(1.), 'new'), iterations=havoc_int(0, 'iterations'))


def pw_check(a, s, init):
    a.true('iterations between 0 and the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], 0)))


def pw_step(a, s, s2, init):
    A = X['A']
    nv = n2(s.v)
    a.eq('next vector is A v / |v|', s2.v * jnp.sqrt(nv), A @ s.v)
    a.eq('estimate is the Rayleigh quotient of v', s2.new_estimate * nv, s.v @ (A @ s.v))
    a.eq('previous estimate kept', s2.old_estimate, s.new_estimate)
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def pw_assume(s, init):
    return [s.iterations <= jnp.maximum(X['maxit'], 0), n2(s.v) > 0]


def pw_go(s):
    return both(jnp.abs((s.new_estimate - s.old_estimate) / s.old_estimate) > X['tol'], s.iterations < X['maxit'])


def f_power(c, d, S, b, maxit, tol):
    A = sym(c, S)
    X.update(A=A, maxit=maxit, tol=tol)
    s = sls.power_iterations(mat(A), b, max_iters=maxit, error_tolerance=tol)
    c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(maxit, 0)))
    if c.mode == 'run':
        c.assume(n2(b) > 1e-9)
        c.eq('unit vector', n2(s.v), 1.)
        v, est = b, None
        for k in range(int(s.iterations)):
            v = v / jnp.sqrt(n2(v))
            est = v @ A @ v
            v = A @ v
        if est is not None:
            c.eq('estimate is the Rayleigh quotient of the last iterate', s.s, est)
            c.true('estimate within the spectrum', jnp.logical_and(s.s >= jnp.min(jnp.linalg.eigvalsh(A)) - 1e-9, s.s <= jnp.max(jnp.linalg.eigvalsh(A)) + 1e-9))
        c.eq('vector', s.v, v / jnp.sqrt(n2(v)))
        es, v = [-1e20, 1e20], b
        for k in range(1, 13):
            v = v / jnp.sqrt(n2(v))
            es.append(float(v @ A @ v))
            v = A @ v
            t = sls.power_iterations(mat(A), b, max_iters=12, error_tolerance=tol)
            ch = abs((es[-1] - es[-2]) / es[-2])
            if abs(ch - float(tol)) < 1e-9 * float(tol) + 1e-14:
                break
            if ch < tol or k == 12:
                c.static('ends with the first relative change within the tolerance, or at the limit', int(t.iterations) == k, (int(t.iterations), k))
                break
        t = sls.power_iterations(mat(A), b, max_iters=3000, error_tolerance=1e-13)
        w = jnp.linalg.eigvalsh(A)
        c.true('converges to the largest eigenvalue', jnp.abs(t.s - w[-1]) <= 1e-3 * w[-1])


CONTRACTS['C11'].append(Contract('power iterations', f_power, dims=('n',), args=[S_, B_, MAXIT, RTOL], loops=[LoopInv(pw_gen, pw_check, pw_assume, match=is_state('old_estimate'), step=pw_step, go=pw_go)],
                                 light=True, grid=[1, 2, 3], num=[2, 4, 7], samples=6, targets=('sls.power_iterations',)))


# ------------------------------------------------------------------ LSQR
def lsqr_gen(h, init):
    f = {}
    for k in init._fields:
        v = getattr(init, k)
        f[k] = havoc_int(0, k) if k in ('iterations', 'n_times', 'n_trans') else havoc(jnp.asarray(v, dtype=float), k)
    X['p'] = havoc(init.u, 'p')
    return type(init)(**f)


def lsqr_check(a, s, init):
    if s is init:
        A, b = X['A'], X['b']
        # ghost p = u
        a.eq('b - A x = phi_bar p', b - A @ s.x, s.phi_bar * s.u)
        a.eq('A w = rho_bar p + A v - alpha u', A @ s.w, s.rho_bar * s.u + A @ s.v - s.alpha * s.u)


def lsqr_nz(A, s):
    u = A @ s.v - s.alpha * s.u
    be = jnp.sqrt(n2(u))
    return n2(A.T @ (u / be) - be * s.v)


def lsqr_assume(s, init):
    A, b, p = X['A'], X['b'], X['p']
    return [jnp.all(A @ s.x == b - s.phi_bar * p), jnp.all(A @ s.w == s.rho_bar * p + A @ s.v - s.alpha * s.u), s.rho_bar != 0, n2(A @ s.v - s.alpha * s.u) > 0, s.cum_psi_sqr == 0, lsqr_nz(A, s) > 0]


def lsqr_step(a, s, s2, init):
    A, b, p = X['A'], X['b'], X['p']
    # beta u_new = A v - alpha u;  alpha_new v_new = A' u_new - beta v
    a.eq('bidiagonalization: u', s2.beta * s2.u, A @ s.v - s.alpha * s.u)
    a.eq('bidiagonalization: beta', s2.beta ** 2, n2(A @ s.v - s.alpha * s.u))
    a.eq('bidiagonalization: v', s2.alpha * s2.v, A.T @ s2.u - s2.beta * s.v)
    a.eq('bidiagonalization: alpha', s2.alpha ** 2, n2(A.T @ s2.u - s2.beta * s.v))
    rho2 = s.rho_bar ** 2 + s2.beta ** 2
    a.eq('x moves along w', rho2 * (s2.x - s.x), s.rho_bar * s.phi_bar * s.w)
    a.eq('w', rho2 * (s2.w - s2.v), -s2.beta * s2.alpha * s.w)
    a.eq('rotated residual coefficient', s2.phi_bar ** 2 * rho2, (s2.beta * s.phi_bar) ** 2)
    a.eq('rotated diagonal', s2.rho_bar ** 2 * rho2, (s.rho_bar * s2.alpha) ** 2)
    # ghost: rho p_new = beta p - rho_bar u_new
    a.eq('b - A x = phi_bar p', rho2 * (b - A @ s2.x), s2.beta * s.phi_bar * (s2.beta * p - s.rho_bar * s2.u))
    a.eq('A w = rho_bar p + A v - alpha u', rho2 * (A @ s2.w - A @ s2.v + s2.alpha * s2.u), -s.rho_bar * s2.alpha * (s2.beta * p - s.rho_bar * s2.u))
    a.eq('residual norm estimate', s2.r_norm ** 2, s2.phi_bar ** 2)
    a.eq('counters', jnp.stack((s2.iterations, s2.n_times, s2.n_trans)), jnp.stack((s.iterations, s.n_times, s.n_trans)) + 1)


def lsqr_go(s):
    """none of the documented stopping criteria S1, S2, S3 holds and the limit is not reached"""
    b0, atr0 = X['b0'], X['atr0']
    return both(s.r_norm / b0 > X['btol'] + X['atol'] * s.A_norm * s.x_norm / b0, s.atr_norm / atr0 > X['atol'], 1. / s.A_cond > 1. / X['conlim'], s.iterations < 6)


def lsqr_stop(s, sl=0.):
    b0, atr0 = X['b0'], X['atr0']
    return (s.r_norm / b0 <= (X['btol'] + X['atol'] * s.A_norm * s.x_norm / b0) * (1 + sl)) | (s.atr_norm / atr0 <= X['atol'] * (1 + sl)) | (1. / s.A_cond <= 1. / X['conlim'] * (1 + sl))


def f_lsqr_iter(c, d, A, b, x0):
    r0 = b - A @ x0
    X.update(A=A, b=b, atol=1e-8, btol=1e-8, conlim=1e8, b0=jnp.sqrt(n2(r0)))
    X['atr0'] = jnp.sqrt(n2(A.T @ (r0 / X['b0']))) * X['b0']
    if c.mode == 'trace':
        r0 = b - A @ x0
        c.assume(n2(r0) > 0)
        c.assume(n2(A.T @ (r0 / jnp.sqrt(n2(r0)))) > 0)
        sls.lsqr(mat(A), b, x0, max_iters=6)
        return
    m, n = A.shape
    K = np.asarray(A.T @ A)
    xs = np.asarray(x0, dtype=float)
    g = np.asarray(A.T @ (b - A @ x0))
    if not np.isfinite(g).all() or np.abs(g).max() < 1e-6:
        return
    # the k-th LSQR estimate minimises |b - A x| over x0 + Krylov(A'A, A'r0)
    Q = []
    v = g
    for k in range(1, min(m, n, 4) + 1):
        for q in Q + Q:
            v = v - q * (q @ v)
        if np.linalg.norm(v) < 1e-6 * np.linalg.norm(g):
            break
        Q.append(v / np.linalg.norm(v))
        v = K @ Q[-1]
        W = np.stack(Q, 1)
        best = xs + W @ np.linalg.lstsq(np.asarray(A) @ W, np.asarray(b - A @ x0), rcond=None)[0]
        s = sls.lsqr(mat(A), b, x0, atol=0., btol=0., conlim=1e14, max_iters=k + 1)
        if int(s.iterations) != k + 1:
            break
        c.eq('estimate %d is optimal over its Krylov space' % k, s.x, best)
        c.eq('residual norm estimate %d' % k, s.r_norm, jnp.sqrt(n2(b - A @ s.x)))
        c.static('operator applications', int(s.n_times) == k + 1 and int(s.n_trans) == k + 1, (s.n_times, s.n_trans))


def f_lsqr(c, d, A, b, x0, damp):
    m, n = A.shape
    if m < n:
        A = A.T
        m, n = n, m
        b, x0 = jnp.concatenate((b, b, b, b))[:m], x0[:n]
    sv = jnp.linalg.svd(A, compute_uv=False)
    c.assume(sv[-1] > 0.02 * sv[0])
    s = sls.lsqr(mat(A), b, x0, atol=1e-13, btol=1e-13, max_iters=6 * n + 10)
    xs = jnp.linalg.lstsq(A, b)[0]
    c.eq('least squares solution', s.x, xs)
    c.eq('residual norm', s.r_norm, jnp.sqrt(n2(b - A @ s.x)))
    t = sls.lsqr_jit(mat(A), b, x0, 0, 1e-13, 1e-13, 1e8, 6 * n + 10)
    c.eq('compiled form agrees', t.x, xs)
    s = sls.lsqr(mat(A), b, jnp.zeros(n), damp=damp, atol=1e-13, btol=1e-13, max_iters=6 * n + 10)
    c.eq('damped least squares solution', s.x, jnp.linalg.solve(A.T @ A + damp ** 2 * jnp.eye(n), A.T @ b))
    c.eq('damped residual norm', s.r_norm, jnp.sqrt(n2(b - A @ s.x) + damp ** 2 * n2(s.x)))
    c.true('norm estimates', s.x_norm <= 1.001 * jnp.sqrt(n2(s.x)) + 1e-6)
    for k in (1, 2, 4):
        s = sls.lsqr(mat(A), b, x0, max_iters=k)
        c.true('iterations within the limit', s.iterations <= k)
    r0 = b - A @ x0
    X.update(b0=jnp.sqrt(n2(r0)), atr0=jnp.sqrt(n2(A.T @ r0)))
    if float(X['atr0']) > 1e-6 * float(X['b0']) > 0:
        for at, bt, cl in ((1e-8, 1e-8, 1e8), (1e-2, 1e-9, 1e8), (1e-12, 1e-2, 1e8), (1e-12, 1e-12, 3.)):
            X.update(atol=at, btol=bt, conlim=cl)
            s = sls.lsqr(mat(A), b, x0, atol=at, btol=bt, conlim=cl, max_iters=12 * n + 20)
            c.true('stops for a documented reason', lsqr_stop(s, 1e-9) | (s.iterations >= 12 * n + 20) | (s.atr_norm < 1e-15 * X['atr0']) | (s.r_norm < 1e-15 * X['b0']))
            if int(s.iterations) > 1:
                t = sls.lsqr(mat(A), b, x0, atol=at, btol=bt, conlim=cl, max_iters=int(s.iterations) - 1)
                went_on(c, t, ~lsqr_stop(t, -1e-9))


CONTRACTS['C11'].append(Contract('lsqr iteration', f_lsqr_iter, dims=('m', 'n'), args=[AMN, BM, X0], light=True,
                                 loops=[LoopInv(lsqr_gen, lsqr_check, lsqr_assume, match=is_state('phi_bar'), step=lsqr_step, go=lsqr_go)],
                                 grid=[(2, 2)], num=[(5, 4), (4, 6)], samples=4, targets=('sls.lsqr',)))
CONTRACTS['C11'].append(Contract('lsqr solution', f_lsqr, dims=('m', 'n'), args=[AMN, BM, X0, Param('damp', (), pos=True)], sym=False, deduce=False,
                                 grid=[(3, 2)], num=[(6, 4), (3, 7)], samples=4, targets=('sls.lsqr', 'sls.lsqr_jit')))


# ------------------------------------------------------------------ Lanczos bidiagonalisation
def f_lanbpro(c, d, A, b):
    import cr.sparse.sls.svd as crsvd
    m, n = A.shape
    k = min(m, n) - 1
    s = crsvd.lanbpro(mat(A), k, b)
    al, be, U, V = s.alpha, s.beta, s.U, s.V
    B = jnp.diag(al) + jnp.diag(be[1:k], -1)
    sc = jnp.sqrt(n2(A))
    c.eq('left vectors are orthonormal', U.T @ U, jnp.eye(k))
    c.eq('right vectors are orthonormal', V.T @ V, jnp.eye(k))
    c.eq('first left vector', U[:, 0] * jnp.sqrt(n2(b)), b)
    c.eq("A' U = V B'", A.T @ U / sc, V @ B.T / sc)
    c.eq('A V = U B + p e_k', A @ V / sc, (U @ B + jnp.outer(s.p, jnp.eye(k)[-1])) / sc)
    c.static('iterations', int(s.iterations) == k)
    kk = min(2, k)
    U, S, V, bnd, conv, st = crsvd.lansvd_simple(mat(A), kk, b)
    if min(m, n) <= kk + 8:
        w = jnp.linalg.svd(A, compute_uv=False)
        c.eq('largest singular values', S / w[0], w[:kk] / w[0])
        c.eq("singular vectors: A V = U S", A @ V / w[0], U * S / w[0])
        c.eq('left singular vectors are orthonormal', U.T @ U, jnp.eye(kk))
        c.eq('right singular vectors are orthonormal', V.T @ V, jnp.eye(kk))


CONTRACTS['C11'].append(Contract('Lanczos bidiagonalization and SVD', f_lanbpro, dims=('m', 'n'), args=[AMN, BM], sym=False, deduce=False, tol=1e-5,
                                 grid=[(4, 3), (5, 5)], num=[(9, 7), (6, 9), (30, 24)], samples=3, targets=('sls.svd.lanbpro', 'sls.svd.lansvd_simple')))
