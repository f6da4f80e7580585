"""C15 spectral projected gradients (opt.spg) and the accelerated first order solver (fom) with the problems built on it."""
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse import lop, opt, fom
from cr.sparse._src.opt import spg
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_int
from c10_linear import n2, gen_vec, gen_psd, gen_mat, mat, is_state, sym

CONTRACTS = {k: [] for k in ('C15',)}
X = {}


# ------------------------------------------------------------------ arbitrary functions
def any_f(v):
    """an arbitrary function value (uninterpreted)"""
    return jnp.sum(jax.nn.sigmoid(v))


def any_g(v):
    """an arbitrary gradient (uninterpreted, unrelated to any_f)"""
    return jnp.sin(v)


def any_prox(v, t):
    return jax.nn.sigmoid(v) + jnp.cos(t)


def any_h(v):
    return jnp.sum(jnp.cos(v))


def smooth(f, g):
    return opt.SmoothFunction(func=f, grad=g, grad_val=lambda v: (g(v), f(v)))


# ------------------------------------------------------------------ spectral projected gradients
def proj_any(v):
    """projection on an arbitrary closed convex set contained in the half space <u, x> <= q"""
    p = jax.nn.sigmoid(v)
    loops.assume(X['u'] @ p <= X['q'])
    return p


def spg_gen(h, init):
    x, xp = havoc(init.x, 'x'), havoc(init.x, 'x_prev')
    fp = havoc(init.f_past, 'f_past')
    return init._replace(x=x, g=any_g(x), x_prev=xp, g_prev=any_g(xp), delta=havoc(jnp.asarray(1.), 'delta'), f_past=fp,
                         iterations=havoc_int(1, 'iterations'), proj_calls=havoc_int(1, 'proj_calls'), f_calls=havoc_int(2, 'f_calls'), g_calls=havoc_int(2, 'g_calls'))


def spg_assume(s, init):
    return [X['u'] @ s.x <= X['q'], s.f_past[0] == any_f(s.x), s.iterations <= jnp.maximum(X['maxit'], 1), s.f_calls <= jnp.maximum(X['maxf'] + 49, 2)]


def spg_check(a, s, init):
    a.true('the iterate stays in the set', X['u'] @ s.x <= X['q'])
    a.eq('gradient at the iterate', s.g, any_g(s.x))
    a.eq('gradient at the previous iterate', s.g_prev, any_g(s.x_prev))
    a.eq('latest value is that of the iterate', s.f_past[0], any_f(s.x))
    a.true('iterations between 1 and the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['maxit'], 1)))
    a.true('function calls within the limit and one line search', jnp.logical_and(s.f_calls >= 2, s.f_calls <= jnp.maximum(X['maxf'] + 49, 2)))


def ls_gen(h, init):
    al = havoc(jnp.asarray(1.), 'alpha')
    x, d, fm, gd = X['ls']
    X['alpha'] = al
    xn = x + al * d
    return type(init)(alpha=al, x_new=xn, f_val=X['f'](xn), f_lim=fm + al * gd, f_calls=havoc_int(1, 'f_calls'))


def ls_assume(s, init):
    return [s.alpha > 0, s.alpha <= 1, s.f_calls <= 50]


def ls_check(a, s, init):
    if s is init:
        X['ls0'] = s
    x, d, fm, gd = X['ls']
    a.true('step length in (0, 1]', jnp.logical_and(s.alpha > 0, s.alpha <= 1))
    a.eq('trial point on the segment', s.x_new, x + s.alpha * d)
    a.eq('value at the trial point', s.f_val, X['f'](s.x_new))
    a.eq('Armijo limit', s.f_lim, fm + s.alpha * gd)
    a.true('between 1 and 50 calls', jnp.logical_and(s.f_calls >= 1, s.f_calls <= 50))


def ls_step(a, s, s2, init):
    a.true('the step length decreases', s2.alpha < s.alpha)
    a.true('by a factor of at least 0.1 of a unit step or one half', jnp.logical_or(s2.alpha >= 0.1, s2.alpha == s.alpha / 2))
    a.true('one more call', s2.f_calls == s.f_calls + 1)


def bb(s):
    sx, sy = s.x - s.x_prev, s.g - s.g_prev
    lam = (sx @ sx) / (sx @ sy + float(jnp.finfo(jnp.float32).eps))
    lam = jnp.where(lam < 1e-10, 1., lam)
    return jnp.where(lam > 1e10, 1., lam)


def spg_direction(s, proj):
    return proj(s.x - bb(s) * s.g) - s.x


def spg_step(a, s, s2, init):
    d, al = spg_direction(s, proj_any), X['alpha']
    de = s.g @ d
    a.eq('moves along the projected spectral gradient direction', s2.x, s.x + al * d)
    a.eq('reported directional derivative', s2.delta, de)
    a.eq('previous iterate kept', s2.x_prev, s.x)
    a.eq('history of values: older ones shifted', s2.f_past[1:], s.f_past[:-1])
    a.true('sufficient decrease over the largest remembered value, unless the line search gave up',
           jnp.logical_or(s2.f_past[0] <= jnp.max(s.f_past) + X['gamma'] * al * de, s2.f_calls - s.f_calls >= 50))
    a.true('one more iteration, projection and gradient', jnp.logical_and(s2.iterations == s.iterations + 1, jnp.logical_and(s2.proj_calls == s.proj_calls + 1, s2.g_calls == s.g_calls + 1)))


def wrap_ls(c, gamma):
    """the line search loop's invariant speaks about the arguments of line_search: capture them at the call"""
    real = spg.line_search

    def line_search(func, x, d, f_max, f_last, gamma, delta):
        X['ls'] = (x, d, f_max, gamma * delta)
        X['f'] = func
        return real(func, x, d, f_max, f_last, gamma, delta)
    return [(spg, 'line_search', line_search)] if hasattr(spg, 'line_search') else []


def both(*a):
    r = a[0]
    for b in a[1:]:
        r = jnp.logical_and(r, b)
    return r


def spg_go(s):
    oc = jnp.max(jnp.abs(proj_any(s.x - s.g) - s.x))
    return both(s.iterations < X['maxit'], s.f_calls < X['maxf'], s.delta <= -X['ptol'], oc >= X['otol'])


OUTER = lambda step=None: LoopInv(spg_gen, spg_check, spg_assume, match=is_state('f_past', 'x_prev'), step=step, go=spg_go)
INNER = LoopInv(ls_gen, ls_check, ls_assume, match=is_state('alpha', 'f_lim'), step=ls_step, go=lambda s: both(s.f_val > s.f_lim, s.f_calls < 50))


def f_spg(c, d, x0, u, q, maxit, maxf, ptol, otol, gamma):
    X.update(u=u, q=q, maxit=maxit, maxf=maxf, gamma=gamma, ptol=ptol, otol=otol)
    o = dict(progress_tol=ptol, optim_tol=otol, max_iters=maxit, max_f_calls=maxf, suff_dec=gamma, memory=d['k'])
    if c.mode == 'trace':
        f, proj = smooth(any_f, any_g), proj_any
        F, G = any_f, any_g
        c.assume(jnp.sum(jnp.abs(G(jax.nn.sigmoid(x0)))) > 0)      # the first step divides by the norm of the gradient
    else:
        w = 1 + jnp.arange(x0.size) % 3
        c0 = u
        F = lambda v: 0.5 * jnp.sum(w * (v - c0) ** 2) + 0.05 * jnp.sum((v - c0) ** 4)
        G = lambda v: w * (v - c0) + 0.2 * (v - c0) ** 3
        rad = jnp.abs(q) + 0.1
        if int(maxf) % 2:
            # flat, then steep: the spectral step overshoots and the line search backtracks
            F = lambda v: jnp.sum(jnp.exp(6 * v) / 6 - v)
            G = lambda v: jnp.exp(6 * v) - 1
            rad, x0 = rad + 2, -2 - jnp.abs(x0) / 4
        f = smooth(F, G)
        proj = opt.proj_l2_ball(rad, jnp.zeros_like(x0)) if int(maxit) % 2 else (lambda v: jnp.clip(v, -rad, rad / 2))
    s = spg.solve_from(f, proj, x0, spg.SPGOptions(**o))
    if c.mode == 'trace':
        c.true('the solution is in the set', u @ s.x <= q)
    else:
        c.eq('the solution is in the set', proj(s.x), s.x)
        t = spg.solve_from_jit(f, proj, x0)
        c.true('no descent direction is left at the minimiser', jnp.max(jnp.abs(proj(t.x - G(t.x)) - t.x)) <= 1e-3)
        c.eq('the minimiser is in the set', proj(t.x), t.x)
        y = proj(x0)
        y = y + jnp.minimum(1., 1 / jnp.sum(jnp.abs(G(y)))) * (proj(y - G(y)) - y)
        hist = [float(F(y))] * int(d['k'])
        p = proj(x0)
        calls = 2
        for k in range(2, 6):
            s1 = spg.solve_from(f, proj, x0, spg.SPGOptions(progress_tol=-1e30, optim_tol=-1., max_iters=k, suff_dec=gamma, memory=d['k']))
            sx, sy = y - p, G(y) - G(p)
            if float(sx @ sx) < 1e-12:
                break
            lam = (sx @ sx) / (sx @ sy + float(jnp.finfo(jnp.float32).eps))
            lam = 1. if lam < 1e-10 or lam > 1e10 else lam
            dd = proj(y - lam * G(y)) - y
            de = G(y) @ dd
            al, fm, fl = 1., max(hist), hist[0]
            for _ in range(50):
                calls += 1
                v = float(F(y + al * dd))
                if v <= fm + gamma * al * de:
                    break
                tmp = -0.5 * al ** 2 / (v - fl - al * de)
                al = tmp if 0.1 <= tmp <= 0.9 * al else al / 2
            p, y = y, y + al * dd
            hist = ([float(F(y))] + hist)[:int(d['k'])]
            c.eq('iterate %d' % k, s1.x, y)
            c.eq('history %d' % k, s1.f_past, jnp.asarray(hist))
            c.static('iterations %d' % k, int(s1.iterations) == k)
            c.static('function calls %d' % k, int(s1.f_calls) == calls, (s1.f_calls, calls))
            c.static('gradients %d' % k, int(s1.g_calls) == k + 1, s1.g_calls)
    c.eq('gradient is that of the solution', s.g, G(s.x))
    c.eq('latest value is that of the solution', s.f_past[0], F(s.x))
    c.true('iterations at most the limit', s.iterations <= jnp.maximum(maxit, 1))
    c.true('function calls at most the limit and one line search', s.f_calls <= jnp.maximum(maxf + 49, 2))
    oc = jnp.max(jnp.abs(proj(s.x - s.g) - s.x))
    c.true('stops for a documented reason', jnp.logical_or(jnp.logical_or(s.iterations >= maxit, s.f_calls >= maxf), jnp.logical_or(s.delta > -ptol, oc < otol)))
    if c.mode == 'run' and int(s.iterations) > 1:
        t = spg.solve_from(f, proj, x0, spg.SPGOptions(**dict(o, max_iters=int(s.iterations) - 1)))
        oc = jnp.max(jnp.abs(proj(t.x - t.g) - t.x))
        c.true('went on only while no stopping rule held', both(t.delta <= -ptol * (1 - 1e-6), oc >= otol * (1 - 1e-6), t.f_calls < maxf))


def f_ls(c, d, x, dd, fm, fl, gamma, delta):
    c.assume(fm >= fl)
    if c.mode == 'trace':
        F = any_f
    else:
        F = lambda v: 0.5 * jnp.sum(v ** 2) - 0.1 * jnp.sum(v) + jnp.sum(jnp.cos(v))
        delta = -jnp.abs(delta)
    X.update(ls=(x, dd, fm, gamma * delta), f=F)
    s = spg.line_search(F, x, dd, fm, fl, gamma, delta)
    c.true('step length in (0, 1]', jnp.logical_and(s.alpha > 0, s.alpha <= 1))
    c.eq('point', s.x_new, x + s.alpha * dd)
    c.eq('value', s.f_val, F(s.x_new))
    c.true('sufficient decrease or 50 calls', jnp.logical_or(s.f_val <= fm + s.alpha * gamma * delta, s.f_calls >= 50))
    c.true('at most 50 calls', s.f_calls <= 50)


XN = Param('x0', ('n',), gen=gen_vec)
UN = Param('u', ('n',), gen=gen_vec)
Q = Param('q', ())
GAMMA = Param('gamma', (), pos=True, within=(1e-5, 0.5))
PT = Param('ptol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-12, -4))
OT = Param('otol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-8, -2))
MI = Param('maxit', (), 'i', lo=1, hi=9)
MF = Param('maxf', (), 'i', lo=2, hi=30)
kw = dict(light=True, samples=5)
CONTRACTS['C15'] += [
    Contract('spg feasibility, bookkeeping, stopping', f_spg, dims=('n', 'k'), args=[XN, UN, Q, MI, MF, PT, OT, GAMMA], loops=[OUTER(), INNER], libs=wrap_ls(None, None),
             grid=[(2, 3)], num=[(1, 2), (3, 1), (4, 3), (6, 10)], targets=('opt.spg.solve_from', 'opt.spg.solve_from_jit', 'opt.spg.line_search'), **kw),
    Contract('spg iteration', f_spg, dims=('n', 'k'), args=[XN, UN, Q, MI, MF, PT, OT, GAMMA], loops=[OUTER(spg_step), INNER], libs=wrap_ls(None, None),
             grid=[(2, 3)], num=[(4, 3)], targets=('opt.spg.solve_from', 'opt.spg.line_search'), **kw),
    Contract('spg line search', f_ls, dims=('n',), args=[XN, UN, Param('fm', ()), Param('fl', ()), GAMMA, Param('delta', ())], loops=[INNER],
             grid=[2], num=[1, 3, 5], targets=('opt.spg.line_search',), **kw)]


# ------------------------------------------------------------------ accelerated first order method
def fom_gen(h, init):
    A, b = X['A'], X['b']
    x, y, z = havoc(init.x, 'x'), havoc(init.y, 'y'), havoc(init.z, 'z')
    f = init._asdict()
    f.update(L=havoc(jnp.asarray(1.), 'L'), theta=havoc(jnp.asarray(1.), 'theta'), x=x, A_x=A @ x, g_Ax=X['G'](A @ x + b), f_x=X['F'](A @ x + b),
             y=y, A_y=A @ y, g_Ay=X['G'](A @ y + b), f_y=X['F'](A @ y + b), g_y=A.T @ X['G'](A @ y + b), z=z, A_z=A @ z, C_z=X['H'](z),
             norm_x=jnp.sqrt(n2(x)), norm_dx=havoc(jnp.asarray(1.), 'norm_dx'), iterations=havoc_int(1, 'iterations'))
    return type(init)(**f)


def fom_check(a, s, init):
    A, b = X['A'], X['b']
    for k in 'xy':
        v = getattr(s, k)
        a.eq('A_%s = A %s' % (k, k), getattr(s, 'A_' + k), A @ v)
        a.eq('g_A%s is the gradient of f at A %s + b' % (k, k), getattr(s, 'g_A' + k), X['G'](A @ v + b))
        a.eq('f_%s is f(A %s + b)' % (k, k), getattr(s, 'f_' + k), X['F'](A @ v + b))
    a.eq('A_z = A z', s.A_z, A @ s.z)
    a.eq('g_y = A^T g_Ay', s.g_y, A.T @ X['G'](A @ s.y + b))
    a.eq('C_z is h(z)', s.C_z, X['H'](s.z))
    a.eq('norm_x', s.norm_x ** 2, n2(s.x))
    a.true('iterations between 1 and the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['maxit'], 1)))
    if s is init:
        fom_relation(a, X['x0'], X['x0'], None, X['L0'], s)


def fom_relation(a, x, z, th, L, s2):
    """one iteration of the method of Auslender and Teboulle from (x, z, theta, L)"""
    A, b = X['A'], X['b']
    L1 = L * X['alpha']
    t = jnp.asarray(1.) if th is None else 2 / (1 + jnp.sqrt(1 + 4 * X['alpha'] / th ** 2))
    a.eq('theta', s2.theta, t)
    y = (1 - t) * x + t * z
    a.eq('extrapolated point y', s2.y, y)
    st = 1 / (t * L1)
    zn = X['Pr'](z - st * (A.T @ X['G'](A @ y + b)), st)
    a.eq('z is the proximal step', s2.z, zn)
    a.eq('x is the average', s2.x, (1 - t) * x + t * zn)
    a.true('one more iteration', s2.norm_dx >= 0)
    a.eq('reported change', s2.norm_dx ** 2, n2(s2.x - x))


def fom_step(a, s, s2, init):
    fom_relation(a, s.x, s.z, s.theta, s.L, s2)
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def fom_assume(s, init):
    return [s.L > 0, s.theta > 0, s.theta <= 1, s.iterations <= jnp.maximum(X['maxit'], 1)]


def prox_any():
    return opt.ProxCapable(func=any_h, prox_op=any_prox, prox_vec_val=lambda v, t: (any_prox(v, t), any_h(any_prox(v, t))))


def f_fom(c, d, A, b, x0, L0, tol, maxit, al, be):
    al, be = (al, be) if c.mode == 'trace' else (0.5 + al / 2, be)
    o = fom.FomOptions(max_iters=maxit, tol=tol, L0=L0, alpha=al, beta=be)
    X.update(A=A, b=b, x0=x0, L0=L0, maxit=maxit, alpha=al, beta=be, tol=tol)
    if c.mode == 'trace':
        f, h = smooth(any_f, any_g), prox_any()
        F, G, H, Pr = any_f, any_g, any_h, any_prox
        X.update(F=F, G=G, H=H, Pr=Pr)
        c.assume(jnp.logical_not(jnp.isinf(any_h(x0))))       # the starting point is in the domain of h
    else:
        w = 1. + jnp.arange(b.size) % 2
        F, G = (lambda v: jnp.sum(w * v ** 2) / 2 + jnp.sum(jnp.cos(v)) / 4), (lambda v: w * v - jnp.sin(v) / 4)
        H, Pr = (lambda v: 0.1 * jnp.sum(jnp.abs(v))), (lambda v, t: jnp.sign(v) * jnp.maximum(jnp.abs(v) - 0.1 * t, 0))
        f, h = smooth(F, G), opt.ProxCapable(func=H, prox_op=Pr, prox_vec_val=lambda v, t: (Pr(v, t), H(Pr(v, t))))
    s = fom.fom(f, h, mat(A), b, x0, o)
    for k in 'xyz':
        c.eq('A_%s = A %s' % (k, k), getattr(s, 'A_' + k), A @ getattr(s, k))
    c.eq('gradient', s.g_Ax, G(A @ s.x + b))
    c.eq('value', s.f_x, F(A @ s.x + b))
    c.eq('value of h', s.C_z, H(s.z))
    c.true('iterations at most the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(maxit, 1)))
    c.true('stops for a documented reason', jnp.logical_or(s.iterations >= maxit, s.norm_dx < tol * jnp.maximum(jnp.sqrt(n2(s.x)), 1)))
    if c.mode == 'run':
        for mi, tl in ((maxit, tol), (120, tol), (120, 0.05)):
            s = fom.fom(f, h, mat(A), b, x0, o._replace(max_iters=mi, tol=tl))
            if int(s.iterations) > 1:
                t = fom.fom(f, h, mat(A), b, x0, o._replace(max_iters=int(s.iterations) - 1, tol=tl))
                c.true('went on only while no stopping rule held', t.norm_dx >= tl * jnp.maximum(jnp.sqrt(n2(t.x)), 1) * (1 - 1e-6))
        x = z = x0
        L, th = L0, jnp.inf
        for k in range(1, 7):
            L1 = L * al
            th = 2 / (1 + jnp.sqrt(1 + 4 * al / th ** 2))
            y = (1 - th) * x + th * z
            st = 1 / (th * L1)
            z = Pr(z - st * (A.T @ G(A @ y + b)), st)
            xo, x = x, (1 - th) * x + th * z
            xy = x - y
            L = L1
            if float(n2(xy)) > 0:
                loc = 2 * (A @ xy) @ (G(A @ x + b) - G(A @ y + b)) / n2(xy)
                L = L1 if loc <= L1 else jnp.maximum(loc, L1 / be)
            if float(n2(xy)) < 1e-14:
                break
            t = fom.fom(f, h, mat(A), b, x0, o._replace(max_iters=k, tol=-1.))
            c.eq('iterate %d' % k, t.x, x)
            c.eq('z %d' % k, t.z, z)
            c.eq('Lipschitz estimate %d' % k, t.L, L)
            c.eq('change %d' % k, t.norm_dx, jnp.sqrt(n2(x - xo)))


def f_backtrack(c, d, A, g, x, y, gx, gy, L, Le, be):
    from cr.sparse._src.fom.fom import backtrack_L
    xy = x - y
    c.assume(n2(xy) > 0)
    loc = 2 * jnp.sum((A @ xy) * (gx - gy)) / n2(xy)
    r = backtrack_L(x, A @ x, gx, y, A @ y, gy, L, Le, be)
    if c.mode == 'run':
        c.eq('estimate', r, L if loc <= L else jnp.minimum(Le, jnp.maximum(loc, L / be)))
    else:
        c.true('unchanged when large enough, else raised to the local estimate or by 1/beta, at most the known bound',
               jnp.logical_or(jnp.logical_and(loc <= L, r == L), jnp.logical_and(loc > L, r == jnp.minimum(Le, jnp.maximum(loc, L / be)))))
    c.eq('unchanged for coinciding points', backtrack_L(x, A @ x, gx, x, A @ x, gy, L, Le, be), L)


def soft(v, t):
    return jnp.sign(v) * jnp.maximum(jnp.abs(v) - t, 0)


class Called(Exception):
    pass


def stub_fom(*args, **kw):
    """contract of fom as seen by a caller: minimises f(A x + b) + h(x) from x0; the caller is checked on what it asks for"""
    X['call'] = args, kw
    raise Called()


def asked(c, call, *args):
    """the (f, h, A, b, x0) a problem hands to fom"""
    X.pop('call', None)
    try:
        call(*args)
    except Called:
        pass
    (f, h, A, b, x0), kw = X['call'][0][:5], X['call'][1]
    return f, h, A, b, x0


def f_problem(which):
    def fn(c, d, A, b, x0, lam, v, u, t):
        op = mat(A)
        if c.mode == 'run':
            return
        f, h, A2, b2, x2 = asked(c, {'l1rls': fom.l1rls, 'lasso': fom.lasso, 'owl1rls': fom.owl1rls}[which], op, b, lam, x0)
        c.static('the operator', A2 is op)
        c.eq('translation by -b', b2, -b)
        c.eq('starting point', x2, x0)
        c.eq('f is half the squared norm', f.func(u), 0.5 * n2(u))
        c.eq('gradient of f', f.grad(u), u)
        g, fv = f.grad_val(u)
        c.eq('gradient of f (pair)', g, u)
        c.eq('value of f (pair)', fv, 0.5 * n2(u))
        ref = {'l1rls': opt.prox_l1, 'lasso': opt.prox_l1_ball, 'owl1rls': opt.prox_owl1}[which](lam)
        c.eq('h is the documented function', h.func(v), ref.func(v))
        c.eq('its proximal operator', h.prox_op(v, t), ref.prox_op(v, t))
        if which == 'l1rls':
            c.eq('h is the weighted l1 norm', h.func(v), jnp.sum(jnp.abs(lam * v)))
            c.eq('its proximal operator is soft thresholding', h.prox_op(v, t), soft(v, lam * t))
    return fn


def f_l1rls(c, d, A, b, x0, lam):
    s = fom.l1rls(mat(A), b, lam, x0)
    g = A.T @ (A @ s.x - b)
    st = 1 / (n2(A) + 1)
    c.eq('a minimiser: fixed point of the proximal gradient step', soft(s.x - st * g, st * lam), s.x)
    x = fom.l1rls_jit(lop.matrix(A), b, lam, x0).x
    c.eq('compiled form: fixed point of the proximal gradient step', soft(x - st * (A.T @ (A @ x - b)), st * lam), x)
    x = s.x
    obj = lambda v: 0.5 * n2(A @ v - b) + lam * jnp.sum(jnp.abs(v))
    for e in (0.3, 0.01):
        for k in range(x.size):
            c.true('no better neighbour', jnp.logical_and(obj(x) <= obj(x.at[k].add(e)) + 1e-5 * (1 + obj(x)), obj(x) <= obj(x.at[k].add(-e)) + 1e-5 * (1 + obj(x))))
    c.eq('A_x = A x', s.A_x, A @ s.x)
    c.eq('value is half the squared residual', s.f_x, 0.5 * n2(A @ s.x - b))
    c.eq('gradient is the residual', s.g_Ax, A @ s.x - b)


def f_options(c, d, A, b, x0, lam, w):
    """the caller's options are the ones fom runs with"""
    w = jnp.sort(w)[::-1]
    for o in (fom.FomOptions(max_iters=2, L0=7., alpha=1.), fom.FomOptions(tol=0.2, Lexact=3., beta=1.)):
        for nm, p, h in (('l1rls', lam, opt.prox_l1(lam)), ('lasso', lam, opt.prox_l1_ball(lam)), ('owl1rls', w, opt.prox_owl1(w))):
            s, r = getattr(fom, nm)(mat(A), b, p, x0, o), fom.fom(opt.smooth_quad_matrix(), h, mat(A), -b, x0, o)
            c.true('%s: no more iterations than asked for' % nm, s.iterations <= o.max_iters)
            c.eq('%s: iterations of fom with these options' % nm, s.iterations, r.iterations)
            c.eq('%s: the point fom reaches with these options' % nm, s.x, r.x)


def f_constrained(c, d, A, b, x0, lam, w):
    st = 1 / (n2(A) + 1)
    s = fom.lasso(mat(A), b, lam, x0)
    c.le('in the l1 ball', jnp.sum(jnp.abs(s.x)), lam)
    g = A.T @ (A @ s.x - b)
    c.eq('lasso: fixed point of the projected gradient step', opt.proj_l1_ball(float(lam))(s.x - st * g), s.x)
    # duality gap of the constrained problem: g^T (x - u) <= 0 for every vertex u of the ball
    c.true('lasso: no descent towards a vertex', g @ s.x <= -lam * jnp.max(jnp.abs(g)) + 1e-4 * (1 + lam) * (1 + jnp.max(jnp.abs(A)) ** 2))
    c.eq('lasso: value is half the squared residual', s.f_x, 0.5 * n2(A @ s.x - b))
    w = jnp.sort(w)[::-1]
    s = fom.owl1rls(mat(A), b, w, x0)
    g = A.T @ (A @ s.x - b)
    c.eq('ordered weighted l1: value is half the squared residual', s.f_x, 0.5 * n2(A @ s.x - b))
    # optimality: -g is in the subdifferential: <-g, x> = J(x) and the dual norm of g is at most 1
    srt = jnp.sort(jnp.abs(s.x))[::-1]
    J = srt @ w
    sc = 1e-4 * (1 + jnp.max(jnp.abs(A)) ** 2) * (1 + jnp.sum(jnp.abs(s.x)))
    c.true('ordered weighted l1: <-g, x> = J(x)', jnp.abs(-(g @ s.x) - J) <= sc)
    c.true('ordered weighted l1: dual norm of the gradient', jnp.all(jnp.cumsum(jnp.sort(jnp.abs(g))[::-1]) <= jnp.cumsum(w) * (1 + 1e-5) + sc))
    z = fom.owl1rls_jit(lop.matrix(A), b, w, x0).x
    c.true('ordered weighted l1: compiled form', jnp.abs(-((A.T @ (A @ z - b)) @ z) - jnp.sort(jnp.abs(z))[::-1] @ w) <= sc)


def f_affine(c, d, A, b, x, y, t):
    op = fom.matrix_affine_func(A, b)
    c.eq('A x', op(x, 0), A @ x)
    c.eq('A^H y', op(y, 1), jnp.conj(A.T) @ y)
    c.eq('A x + b', op(x, 2), A @ x + b)
    c.eq('without translation', fom.matrix_affine_func(A)(x, 2), A @ x)
    c.eq('without matrix', fom.matrix_affine_func(b=b)(t, 2), t + b)
    c.eq('identity', fom.matrix_affine_func()(x, 2), x)


def f_smooth_dual(c, d, x, x0, mu):
    if c.mode == 'trace':
        f = fom.smooth_dual(prox_any(), mu, x0)         # any prox-capable function
        p = any_prox(x0 + mu * x, mu)
        h = any_h(p)
    else:
        f = fom.smooth_dual(opt.prox_l1(), mu, x0)
        p = soft(x0 + mu * x, mu)
        h = jnp.sum(jnp.abs(p))
    val = h + n2(p - x0) / (2 * mu) - x @ p
    c.eq('gradient is minus the minimiser', f.grad(x), -p)
    c.eq('value at the minimiser', f.func(x), val)
    g, v = f.grad_val(x)
    c.eq('pair: gradient', g, -p)
    c.eq('pair: value', v, val)


def fom_go(s):
    return both(s.iterations < X['maxit'], s.norm_dx >= X['tol'] * jnp.maximum(jnp.sqrt(n2(s.x)), 1))


LIN = LoopInv(fom_gen, fom_check, fom_assume, match=is_state('g_Ay', 'theta'), go=fom_go)
LIN2 = LoopInv(fom_gen, fom_check, fom_assume, match=is_state('g_Ay', 'theta'), step=fom_step)
AMN = Param('A', ('m', 'n'), gen=gen_mat)
BM = Param('b', ('m',), gen=gen_vec)
L0 = Param('L0', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.5, 20))
TOLF = Param('tol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-9, -2))
AL = Param('al', (), pos=True, within=(0.1, 0.99))
BE = Param('be', (), pos=True, within=(0.1, 0.99))
kw = dict(dims=('m', 'n'), light=True, grid=[(2, 2)], samples=5)
CONTRACTS['C15'] += [
    Contract('fom bookkeeping and stopping', f_fom, args=[AMN, BM, XN, L0, TOLF, MI, AL, BE], loops=[LIN], num=[(1, 1), (2, 3), (5, 4)], targets=('fom.fom',), **kw),
    Contract('fom iteration', f_fom, args=[AMN, BM, XN, L0, TOLF, MI, AL, BE], loops=[LIN2], num=[(3, 4)], targets=('fom.fom',), **kw),
    Contract('fom Lipschitz estimate', f_backtrack, args=[AMN, BM, XN, Param('y', ('n',)), Param('gx', ('m',)), Param('gy', ('m',)), L0, Param('Le', (), pos=True), BE],
             num=[(1, 1), (3, 4)], targets=('fom.fom.backtrack_L',), **kw)]

LAM = Param('lam', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-2, 0.5))
CONTRACTS['C15'] += [
    Contract('l1rls solution', f_l1rls, args=[AMN, BM, XN, LAM], sym=False, deduce=False, num=[(2, 2), (3, 5), (6, 4)], tol=1e-4,
             dims=('m', 'n'), grid=[(2, 2)], samples=4, targets=('fom.l1rls', 'fom.l1rls_jit')),
    Contract('options of the problems', f_options, args=[AMN, BM, XN, LAM, Param('w', ('n',), pos=True)], sym=False, deduce=False, num=[(3, 4)], tol=1e-9,
             dims=('m', 'n'), grid=[(3, 4)], samples=1, targets=('fom.l1rls', 'fom.lasso', 'fom.owl1rls')),
    Contract('lasso and owl1rls', f_constrained, args=[AMN, BM, XN, LAM, Param('w', ('n',), pos=True)], sym=False, deduce=False, num=[(2, 2), (3, 5), (6, 4)], tol=1e-4,
             dims=('m', 'n'), grid=[(2, 2)], samples=4, targets=('fom.lasso', 'fom.owl1rls', 'fom.lasso_jit', 'fom.owl1rls_jit')),
    Contract('fom.smooth_dual', f_smooth_dual, dims=('n',), args=[XN, UN, Param('mu', (), pos=True)], grid=[1, 3], num=[1, 4], targets=('fom.smooth_dual',))]
for kd in 'fc':
    CONTRACTS['C15'].append(Contract('matrix_affine_func' + (' complex' if kd == 'c' else ''), f_affine, dims=('m', 'n'), grid=[(1, 1), (2, 3)], num=[(2, 3)], targets=('fom.matrix_affine_func',),
                                     args=[Param('A', ('m', 'n'), kd), Param('b', ('m',), kd), Param('x', ('n',), kd), Param('y', ('m',), kd), Param('t', ('m',), kd)]))

for nm in ('l1rls', 'lasso'):
    CONTRACTS['C15'].append(Contract('problem handed to fom by ' + nm, f_problem(nm), dims=('m', 'n'), light=True, grid=[(2, 2)], num=[(2, 2)], samples=1, opaque_sort=True,
                                     args=[AMN, BM, XN, LAM, Param('v', ('n',)), Param('u', ('m',)), Param('t', (), pos=True)], libs=loops.lib('cr.sparse._src.fom.' + nm, 'fom', stub_fom), targets=('fom.' + nm,)))


# ------------------------------------------------------------------ smoothed conic dual problems
def f_scd(which):
    def fn(c, d, A, b, x0, lam):
        m, n = A.shape
        b = A @ x0
        try:
            if which == 'bp':
                s = fom.bp_scd(lop.matrix(A), b, 1., jnp.zeros(n), jnp.zeros(m))
                ok = lambda v: v.shape == (n,) and bool(jnp.all(jnp.abs(A @ v - b) <= 1e-3 * (1 + jnp.max(jnp.abs(b)))))
            else:
                s = fom.dantzig_scd(lop.matrix(A), b, float(lam), 1., jnp.zeros(n), jnp.zeros(n))
                ok = lambda v: v.shape == (n,) and bool(jnp.all(jnp.abs(A.T @ (b - A @ v)) <= lam + 1e-3 * (1 + jnp.max(jnp.abs(b)))))
            good = any(ok(v) for f in s._fields if hasattr(getattr(s, f), 'shape') for v in (getattr(s, f), -getattr(s, f)))
        except TypeError:
            good = False
        c.static('a point meeting the constraint is returned', good)
    return fn


for nm in ('bp', 'dantzig'):
    CONTRACTS['C15'].append(Contract(nm + '_scd', f_scd(nm), dims=('m', 'n'), args=[AMN, BM, XN, Param('lam', (), pos=True, gen=lambda rng, shape, style, env: 0.01)], sym=False, deduce=False,
                                     grid=[(2, 3)], num=[(3, 5)], styles=('normal',), samples=2, targets=('fom.scd', 'fom.%s_scd' % nm)))
