"""C16 convex l1 solvers: YALL1 (ADMM), l1-ls (interior point), SPGL1, FOCUSS."""
import jax
import jax.numpy as jnp
import numpy as np
import cr.sparse as crs
from cr.sparse import lop
from cr.sparse._src.cvx.adm import yall1
from cr.sparse._src.cvx import l1ls, spgl1, focuss
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_int, opaque, linear_map
from c10_linear import n2, gen_vec, gen_mat, mat, is_state

CONTRACTS = {k: [] for k in ('C16',)}
X = {}


def nrm(v):
    return jnp.sqrt(n2(v))


# ------------------------------------------------------------------ YALL1
def y_iterate(kind, nonneg, x, z):
    """one ADMM iteration of the paper (eq 2.25, 2.27, 2.29)"""
    times, trans, b, w, mu, par, ga = (X[k] for k in ('times', 'trans', 'b', 'w', 'mu', 'par', 'gamma'))
    y = times(z - x / mu) + b / mu
    if kind == 'l1l2':
        y = y / (par / mu + 1)
    elif kind == 'con':
        y = jnp.maximum(0, 1 - par / mu / nrm(y)) * y
    Aty = trans(y)
    z2 = Aty + x / mu
    z2 = jnp.minimum(w, z2) if nonneg else z2 * (w / jnp.maximum(w, jnp.abs(z2)))
    x2 = x - ga * mu * (z2 - Aty)
    return x2, z2, y, Aty


def y_objectives(kind, x, y):
    b, w, par = X['b'], X['w'], X['par']
    p = jnp.sum(jnp.abs(w * x))
    if kind == 'l1l2':
        return p + n2(b - X['times'](x)) / (2 * par), b @ y - 0.5 * par * n2(y)
    if kind == 'con':
        return p, b @ y - par * nrm(y)
    return p, b @ y


def y_gen(h, init):
    x = havoc(init.x, 'x')
    f = dict(x=x, x_prev=havoc(init.x, 'x_prev'), z=havoc(init.z, 'z'), rp=X['b'] - X['times'](x), rd=havoc(init.rd, 'rd'),
             primal_objective=havoc(jnp.asarray(1.), 'po'), dual_objective=havoc(jnp.asarray(1.), 'do'),
             iterations=havoc_int(0, 'iterations'), n_times=havoc_int(1, 'n_times'), n_trans=havoc_int(1, 'n_trans'))
    return type(init)(**f)


def y_check(a, s, init):
    a.eq('rp = b - A x', s.rp, X['b'] - X['times'](s.x))
    a.true('iterations within the limit (pairs)', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], -1) + 1))
    if s is init:
        a.eq('starts at x0', s.x, X['x0'])
        a.eq('starts at z0', s.z, X['z0'])


def y_assume(s, init):
    return [s.iterations <= jnp.maximum(X['maxit'], -1) + 1]


def y_step(kind, nonneg):
    def step(a, s, s2, init):
        x1, z1, _, _ = y_iterate(kind, nonneg, s.x, s.z)
        x2, z2, y2, Aty2 = y_iterate(kind, nonneg, x1, z1)
        a.eq('dual variable after two iterations', s2.z, z2)
        a.eq('primal variable after two iterations', s2.x, x2)
        a.eq('previous primal variable', s2.x_prev, x1)
        a.eq('dual residual', s2.rd, z2 - Aty2)
        p, q = y_objectives(kind, x2, y2)
        a.eq('primal objective', s2.primal_objective, p)
        a.eq('dual objective', s2.dual_objective, q)
        a.eq('counters', jnp.stack((s2.iterations, s2.n_times, s2.n_trans)), jnp.stack((s.iterations + 2, s.n_times + 4, s.n_trans + 2)))
    return step


def y_call(kind, op, b, x0, z0, w, nonneg, par, gamma, tol, maxit):
    if kind == 'bp':
        return yall1.solve_bp(op, b, x0, z0, w, nonneg, gamma, tol, maxit)
    f = yall1.solve_l1_l2 if kind == 'l1l2' else yall1.solve_l1_l2con
    return f(op, b, x0, z0, w, nonneg, par, gamma, tol, maxit)


def y_stop(kind, s, e, strict):
    """the documented stopping rule; strict: relative changes that are no numbers do not count"""
    tol, par, b = X['tol'], X['par'], X['b']
    le = (lambda v, t: v <= t * (1 + e)) if strict else (lambda v, t: jnp.logical_not(v > t * (1 + e)))
    gap = jnp.abs(s.dual_objective - s.primal_objective)
    small = le(nrm(s.x - s.x_prev) / nrm(s.x), tol * (1 if kind == 'con' else 0.9))
    conv = jnp.logical_and(le(gap / s.primal_objective, tol), le(nrm(s.rd) / nrm(s.z), tol))
    if kind == 'bp':
        conv = jnp.logical_and(conv, nrm(s.rp) < tol * nrm(b) * (1 + e))
    elif kind == 'con':
        conv = jnp.logical_and(conv, nrm(s.rp) <= par * (1 + tol) * (1 + e))
    return jnp.logical_or(small, conv)


def y_go(kind):
    return lambda s: jnp.logical_not(jnp.logical_or(s.iterations >= X['maxit'], y_stop(kind, s, 0, True)))


def f_yall1(kind, nonneg, opq):
    def fn(c, d, A, b, x0, z0, w, par, gamma, tol, maxit):
        if c.mode == 'trace' and opq:
            times, trans = (lambda v: linear_map('times', b, v)), (lambda v: linear_map('trans', x0, v))
            op = lop.Operator(times=times, trans=trans, shape=(b.shape[0], x0.shape[0]))
        else:
            times, trans, op = (lambda v: A @ v), (lambda v: A.T @ v), mat(A)
        mu = jnp.mean(jnp.abs(b))
        c.assume(mu > 0)
        X.update(times=times, trans=trans, b=b, w=w, mu=mu, par=par, gamma=gamma, maxit=maxit, x0=x0, z0=z0, tol=tol)
        s = y_call(kind, op, b, x0, z0, w, nonneg, par, gamma, tol, maxit)
        c.eq('residual is b - A x', s.rp, b - times(s.x))
        c.true('iterations at most the limit, in pairs', s.iterations <= maxit + 1)
        if c.mode == 'run':
            x, z = x0, z0
            for k in range(1, 4):
                xp = x
                x, z, y, Aty = y_iterate(kind, nonneg, x, z)
                xp = x
                x, z, y, Aty = y_iterate(kind, nonneg, x, z)
                t = y_call(kind, op, b, x0, z0, w, nonneg, par, gamma, -1., 2 * k)
                c.eq('estimate %d' % k, t.x, x)
                c.eq('previous estimate %d' % k, t.x_prev, xp)
                c.eq('dual variable %d' % k, t.z, z)
                c.eq('dual residual %d' % k, t.rd, z - Aty)
                p, q = y_objectives(kind, x, y)
                c.eq('primal objective %d' % k, t.primal_objective, p)
                c.eq('dual objective %d' % k, t.dual_objective, q)
                c.static('counters %d' % k, (int(t.iterations), int(t.n_times), int(t.n_trans)) == (2 * k, 1 + 4 * k, 1 + 2 * k))
        if c.mode == 'run' and int(maxit) > 0 and float(tol) < 0.8:
            t = y_call(kind, op, b, jnp.ones_like(x0), z0, w, nonneg, par, gamma, tol, maxit)
            c.true('no start counts as converged', jnp.logical_and(s.iterations > 0, t.iterations > 0))
        c.true('stops for a documented reason', jnp.logical_or(s.iterations >= maxit, y_stop(kind, s, 1e-9 if c.mode == 'run' else 0, False)))
        if c.mode == 'run' and int(s.iterations) > 2:
            t = y_call(kind, op, b, x0, z0, w, nonneg, par, gamma, tol, int(s.iterations) - 2)
            c.true('went on only while no stopping rule held', jnp.logical_not(y_stop(kind, t, -1e-9, True)))
    return fn


def gen_rows(rng, shape, style, env):
    m, n = shape
    Q = np.linalg.qr(rng.standard_normal((max(m, n), max(m, n))))[0]
    return Q[:m, :n]


AMN = Param('A', ('m', 'n'), gen=gen_rows)
BM = Param('b', ('m',), gen=lambda rng, shape, style, env: rng.standard_normal(shape) * {'big': 50., 'small': 0.02}.get(style, 1.) + 1e-3)
XN = Param('x0', ('n',), gen=gen_vec)
ZN = Param('z0', ('n',), gen=gen_vec)
WN = Param('w', ('n',), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.3, 3, shape))
PAR = Param('par', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-2, 0))
GAM = Param('gamma', (), pos=True, within=(0.5, 1.5))
TOL = Param('tol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-5, -1))
MI = Param('maxit', (), 'i', lo=0, hi=12)
ARGS = [AMN, BM, XN, ZN, WN, PAR, GAM, TOL, MI]
kw = dict(dims=('m', 'n'), light=True, grid=[(2, 2)], num=[(1, 2), (3, 5), (4, 4)], samples=4)
for kind, fnm in (('bp', 'solve_bp'), ('l1l2', 'solve_l1_l2'), ('con', 'solve_l1_l2con')):
    for nonneg in (False, True):
        CONTRACTS['C16'].append(Contract('yall1.%s%s' % (fnm, ' nonnegative' if nonneg else ''), f_yall1(kind, nonneg, True), args=ARGS,
                                         loops=[LoopInv(y_gen, y_check, y_assume, match=is_state('x_prev', 'rd'), step=y_step(kind, nonneg), go=y_go(kind))], targets=('cvx.adm.yall1.' + fnm,), **kw))


def f_ysolve(form, nonneg):
    """yall1.solve: the minimiser of the documented problem, checked on its optimality conditions (A with orthonormal rows)"""
    def fn(c, d, A, b, u, w, par):
        m, n = A.shape
        c.assume(m <= n)
        if form == 'plain bp':
            w = jnp.ones(n)
        k = dict(tolerance=-1., max_iters=6000)       # the documented stop on a small change of x can come early: run the iterations out
        if form.startswith('rho'):
            k['rho'] = float(par * jnp.where(u[0] > 0.3, (1.2 if 'weights' in form else 0.99) * jnp.max(jnp.abs(A.T @ b)) / par, 1))    # also close to the limit of the zero solution
            par = k['rho']
        elif form.startswith('delta'):
            k['delta'] = float(par)
        Wm = None
        if 'weights' in form:
            k['weights'] = w
        else:
            w = jnp.ones(n)
        if nonneg:
            b = A @ jnp.abs(u)
        if 'basis' in form:
            Wm = jnp.asarray(np.linalg.qr(np.outer(np.arange(n), np.arange(n) % 3) + np.eye(n))[0])
            k['W'] = lop.matrix(Wm)
        if 'start' in form:
            k['x0'] = u
        if float(nrm(b)) < 1e-6:
            return
        op = lop.matrix(A)
        sols = [yall1.solve(op, b, nonneg=nonneg, **k)]
        t = yall1.solve(op, b, nonneg=nonneg, **dict(k, max_iters=3, gamma=1.6))
        c.eq('residual is b - A x after few iterations', t.r, b - A @ t.x)
        if nonneg:
            c.true('nonnegative after few iterations', jnp.all((t.x if Wm is None else Wm.T @ t.x) >= -1e-9))
        if 'basis' in form:
            sols.append(yall1.solve(op, b, nonneg=nonneg, jit=False, **k))
        for s in sols:
            x, al = s.x, (s.x if Wm is None else Wm.T @ s.x)
            B = A if Wm is None else A @ Wm
            sc = 1e-3 * (1 + jnp.max(jnp.abs(b)))
            c.eq('residual is b - A x', s.r, b - A @ x)
            if nonneg:
                c.true('solution is nonnegative', jnp.all(al >= -1e-9))
            if form.startswith('rho'):
                g = B.T @ (b - B @ al) / par
                lo = g <= w * (1 + 1e-3) + 1e-3
                if not nonneg:
                    lo = jnp.logical_and(lo, -g <= w * (1 + 1e-3) + 1e-3)
                c.true('correlations with the residual at most rho w', jnp.all(lo))
                c.true('equal to rho w sign(x) on the support', jnp.all(jnp.abs(g * al - w * jnp.abs(al)) <= sc))
            else:
                r = nrm(b - B @ al)
                c.true('constraint on the residual', r <= (par if form.startswith('delta') else 0) + sc)
                # optimality: compare with the minimum of the linear program / second order cone by weak duality
                v = l1_value(np.asarray(B), np.asarray(b), np.asarray(w), float(par) if form.startswith('delta') else 0., nonneg)
                if v is not None:
                    c.true('the weighted l1 norm is the smallest possible', jnp.sum(w * jnp.abs(al)) <= v + 1e-2 * (1 + v))
    return fn


def l1_value(B, b, w, delta, nonneg):
    """min sum w |x| with |B x - b| <= delta, by exhaustion over supports (exact for basis pursuit: basic solutions)"""
    import itertools
    m, n = B.shape
    if delta > 0:
        return None if np.linalg.norm(b) > delta else 0.
    best = None
    for I in itertools.combinations(range(n), m):
        M = B[:, I]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        v = np.linalg.solve(M, b)
        if nonneg and (v < -1e-9).any():
            continue
        val = float(np.sum(w[list(I)] * np.abs(v)))
        best = val if best is None else min(best, val)
    return best


for form in ('plain bp', 'bp weights', 'bp basis', 'bp start', 'rho', 'rho weights', 'rho basis', 'delta', 'delta weights'):
    for nonneg in (False, True):
        if nonneg and form in ('bp basis', 'rho basis', 'bp start'):
            continue
        CONTRACTS['C16'].append(Contract('yall1.solve %s%s' % (form, ' nonnegative' if nonneg else ''), f_ysolve(form, nonneg), args=[AMN, BM, Param('u', ('n',), gen=gen_vec), WN, PAR],
                                         sym=False, deduce=False, dims=('m', 'n'), grid=[(1, 2)], num=[(2, 4), (3, 5), (4, 4)], samples=4, styles=('normal', 'big', 'int', 'small'), targets=('cvx.adm.yall1.solve',)))


# ------------------------------------------------------------------ l1-ls: truncated Newton interior point method
def l_nu(z):
    nu = 2 * z
    mx = jnp.max(jnp.abs(X['trans'](nu)))
    sf = X['lam'] / mx
    return jnp.where(sf < 1, sf, 1) * nu


def l_primal(x, z):
    return n2(z) + X['lam'] * jnp.sum(jnp.abs(x))


def l_dual(nu):
    return -0.25 * n2(nu) - nu @ X['y']


def l_phi(x, u, z, t):
    """log barrier of |x| <= u, eq 14 of the paper, over t"""
    return n2(z) + X['lam'] * jnp.sum(u) - (jnp.sum(jnp.log(u - x)) + jnp.sum(jnp.log(u + x))) / t


def inside(x, u):
    return jnp.max(jnp.concatenate((x - u, -x - u))) < 0


def l_gen(h, init):
    x, u = havoc(init.x, 'x'), havoc(init.u, 'u')
    z = X['times'](x) - X['y']
    D = havoc(jnp.asarray(1.), 'dual')
    p = l_primal(x, z)
    s = init._replace(x=x, u=u, z=z, nu=l_nu(z), dxu=havoc(init.dxu, 'dxu'), primal_obj=p, dual_obj=D, gap=p - D, rel_gap=(p - D) / jnp.abs(D), s=havoc(jnp.asarray(1.), 's'),
                      t=havoc(jnp.asarray(1.), 't'), iterations=havoc_int(1, 'iterations'), n_times=havoc_int(1, 'n_times'), n_trans=havoc_int(1, 'n_trans'))
    X['st'] = s
    return s


def l_assume(s, init):
    return [inside(s.x, s.u), s.t > 0, s.dual_obj >= l_dual(s.nu), s.iterations <= jnp.maximum(X['maxit'], 1)]


def l_check(a, s, init):
    a.eq('z = A x - y', s.z, X['times'](s.x) - X['y'])
    a.true('x strictly inside its bound u', inside(s.x, s.u))
    a.eq('nu is the residual scaled to dual feasibility', s.nu, l_nu(s.z))
    a.eq('primal objective', s.primal_obj, l_primal(s.x, s.z))
    if s is not init:           # on entry the two are equal, see below
        a.true('dual objective at least that of nu', s.dual_obj >= l_dual(s.nu))
    a.eq('gap', s.gap, s.primal_obj - s.dual_obj)
    a.eq('relative gap', s.rel_gap, s.gap / jnp.abs(s.dual_obj))
    a.true('central path parameter positive', s.t > 0)
    a.true('iterations within the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['maxit'], 1)))
    if s is init:
        a.eq('starts at x0', s.x, X['x0'])
        a.eq('starts at u0', s.u, X['u0'])
        a.eq('dual objective of the start', s.dual_obj, l_dual(s.nu))


def l_step(a, s, s2, init):
    n = s.x.shape[0]
    k, dxu = X['k'], X['dxu']
    a.eq('moves along the Newton direction (x)', s2.x, s.x + k * dxu[:n])
    a.eq('moves along the Newton direction (u)', s2.u, s.u + k * dxu[n:])
    a.eq('step length recorded', s2.s, k)
    a.true('the barrier decreases sufficiently', l_phi(s2.x, s2.u, s2.z, s.t) - l_phi(s.x, s.u, s.z, s.t) <= 0.01 * k * X['gdx'])
    a.eq('dual objective is the best so far', s2.dual_obj, jnp.maximum(l_dual(s2.nu), s.dual_obj))
    a.true('one more iteration', s2.iterations == s.iterations + 1)
    a.true('central path parameter does not decrease', s2.t >= s.t)
    a.eq('direction kept to start the next one', s2.dxu, dxu)
    a.eq('central path parameter', s2.t, jnp.where(k < 0.5, s.t, jnp.maximum(jnp.minimum(4 * n / s2.gap, 2 * s.t), s.t)))


def l_pcg(H, b, x0, max_iters=None, tol=None, M=None):
    """contract of pcg.solve_from as used here: the call is checked, the returned direction is arbitrary"""
    s, lam, times, trans = X['st'], X['lam'], X['times'], X['trans']
    n = s.x.shape[0]
    q1, q2 = 1 / (s.u + s.x), 1 / (s.u - s.x)
    d1, d2 = (q1 * q1 + q2 * q2) / s.t, (q1 * q1 - q2 * q2) / s.t
    a = loops.Asserter('Newton system: ')
    gx, gu = 2 * trans(s.z) - (q1 - q2) / s.t, lam - (q1 + q2) / s.t
    a.eq('right hand side, x part', b[:n], -gx)
    a.eq('right hand side, u part', b[n:], -gu)
    a.eq('starts from the previous direction', x0, s.dxu)
    v = havoc(b, 'v')
    hv, v1, v2 = H(v), v[:n], v[n:]
    a.eq('Hessian, x part', hv[:n], 2 * trans(times(v1)) + d1 * v1 + d2 * v2)
    a.eq('Hessian, u part', hv[n:], d2 * v1 + d1 * v2)
    w = havoc(b, 'w')
    w1, w2 = w[:n], w[n:]
    mv = M(jnp.concatenate(((2 + d1) * w1 + d2 * w2, d2 * w1 + d1 * w2)))
    a.eq('preconditioner inverts the Hessian with 2 I for 2 A^T A, x part', mv[:n], w1)
    a.eq('preconditioner inverts the Hessian with 2 I for 2 A^T A, u part', mv[n:], w2)
    a.true('at most the given iterations', jnp.asarray(max_iters) == X['pcgit'])
    gn = nrm(b)
    a.eq('relative tolerance of the truncation rule', tol, jnp.minimum(0.1, X['xi'] * s.gap / jnp.minimum(1, gn)))
    X['dxu'] = dxu = havoc(b, 'dxu')
    X['gdx'] = -(b @ dxu)
    from cr.sparse._src.opt.pcg import PCGState
    f = {k: None for k in PCGState._fields}
    f.update(x=dxu, iterations=havoc_int(0, 'pcg_iters'))
    return PCGState(**f)


def trial(k):
    s, n = X['st'], X['st'].x.shape[0]
    x, u = s.x + k * X['dxu'][:n], s.u + k * X['dxu'][n:]
    return x, u, jnp.concatenate((x - u, -x - u))


def fi_gen(h, init):
    k = havoc(jnp.asarray(1.), 'k')
    return trial(k) + (k,)


def fi_check(a, s, init):
    for nm, g, w in zip(('x', 'u', 'distances'), s, trial(s[3])):
        a.eq('trial ' + nm, g, w)
    a.true('step length in (0, 1]', jnp.logical_and(s[3] > 0, s[3] <= 1))


def fi_step(a, s, s2, init):
    a.eq('halves the step', s2[3], s[3] / 2)


def bt_gen(h, init):
    k = havoc(jnp.asarray(1.), 'k')
    X['k'] = k
    x, u, f = trial(k)
    z = X['times'](x) - X['y']
    return (x, u, f, z, l_phi(x, u, z, X['st'].t), k, havoc_int(1, 'count'))


def bt_check(a, s, init):
    x, u, f = trial(s[5])
    a.eq('trial x', s[0], x)
    a.eq('trial u', s[1], u)
    a.eq('trial residual', s[3], X['times'](x) - X['y'])
    a.eq('barrier at the trial point', s[4], l_phi(x, u, s[3], X['st'].t))
    a.true('trial point strictly inside', inside(x, u))
    a.true('step length in (0, 1]', jnp.logical_and(s[5] > 0, s[5] <= 1))
    a.true('one multiplication at least', s[6] >= 1)


L_LOOPS = [LoopInv(l_gen, l_check, l_assume, match=is_state('dual_obj', 'rel_gap'), step=l_step, go=lambda s: jnp.logical_and(s.rel_gap > X['tol'], s.iterations < X['maxit'])),
           LoopInv(fi_gen, fi_check, lambda s, i: [s[3] > 0, s[3] <= 1], match=lambda s: type(s) is tuple and len(s) == 4, step=fi_step, go=lambda s: jnp.logical_not(inside(s[0], s[1]))),
           LoopInv(bt_gen, bt_check, lambda s, i: [s[5] > 0, s[5] <= 1, inside(s[0], s[1])], match=lambda s: type(s) is tuple and len(s) == 7)]


def l_opaque(c, A, y, x0):
    if c.mode == 'trace':
        times, trans = (lambda v: linear_map('times', y, v)), (lambda v: linear_map('trans', x0, v))
        return times, trans, lop.Operator(times=times, trans=trans, shape=(y.shape[0], x0.shape[0]))
    return (lambda v: A @ v), (lambda v: A.T @ v), mat(A)


def f_l1ls(c, d, A, y, x0, gapu, lam, tol, xi, t0, maxit):
    times, trans, op = l_opaque(c, A, y, x0)
    u0 = jnp.abs(x0) + gapu
    if c.mode == 'trace':
        c.assume(inside(x0, u0))
    X.update(times=times, trans=trans, y=y, lam=lam, maxit=maxit, x0=x0, u0=u0, xi=xi, pcgit=400, tol=tol)
    s = l1ls.solve_from(op, y, lam, x0, u0, tol=tol, xi=xi, t0=t0, max_iters=maxit, pcg_max_iters=400)
    c.eq('residual is y - A x', s.r, y - times(s.x))
    c.true('iterations at most the limit', s.iterations <= jnp.maximum(maxit, 1))
    z = times(s.x) - y
    P = l_primal(s.x, z)
    if c.mode == 'trace':
        return
    # the best dual value of the history, replayed one iteration limit at a time
    D = -np.inf
    for k in range(1, int(s.iterations) + 1):
        if k > 1:
            c.true('goes on only while the relative gap is above the tolerance', P - D >= tol * abs(D) * (1 - 1e-6) - 1e-12)
        t = l1ls.solve_from(op, y, lam, x0, u0, tol=tol, xi=xi, t0=t0, max_iters=k, pcg_max_iters=400)
        c.static('stops after the limit %d' % k, int(t.iterations) <= k)
        D = max(D, float(l_dual(l_nu(A @ t.x - y))))
        P = l_primal(t.x, A @ t.x - y)
    c.true('stops on the relative gap or the limit', jnp.logical_or(s.iterations >= maxit, P - D <= tol * abs(D) * (1 + 1e-6) + 1e-12))


LAM = Param('lam', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-3, 1))
GAPU = Param('gapu', ('n',), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.1, 2, shape))
T0 = Param('t0', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-1, 2))
XI = Param('xi', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-4, -2))
MI1 = Param('maxit', (), 'i', lo=0, hi=6)
YM = Param('y', ('m',), gen=BM.gen)
CONTRACTS['C16'].append(Contract('l1ls.solve_from', f_l1ls, args=[AMN, YM, XN, GAPU, LAM, TOL, XI, T0, MI1], loops=L_LOOPS, libs=[(l1ls.pcg, 'solve_from', l_pcg)],
                                 dims=('m', 'n'), hyps=lambda p: [T.ge(p['n'], 2)], light=True, grid=[(2, 2)], num=[(1, 2), (3, 5), (4, 4), (2, 1)], samples=3, targets=('cvx.l1ls.solve_from',)))


def l1_best(A, y, lam):
    """min |A x - y|^2 + lam |x|_1 by exhaustion over supports and signs"""
    import itertools
    m, n = A.shape
    best = float(y @ y)
    for sg in itertools.product((-1, 0, 1), repeat=n):
        S = [i for i in range(n) if sg[i]]
        if not S or len(S) > m:
            continue
        B = A[:, S]
        G = 2 * B.T @ B
        if np.linalg.cond(G) > 1e10:
            continue
        x = np.linalg.solve(G, 2 * B.T @ y - lam * np.array([sg[i] for i in S]))
        best = min(best, float(np.sum((B @ x - y) ** 2) + lam * np.sum(np.abs(x))))
    return best


def f_l1ls_sol(jit):
    """the returned point is optimal to the requested duality gap (checked with a dual point of our own)"""
    def fn(c, d, A, y, x0, gapu, lam):
        n = A.shape[1]
        op = mat(A)
        X.update(trans=lambda v: A.T @ v, y=y, lam=lam)
        tol = 1e-4
        starts = [{}] if jit else [{}, dict(x0=x0, u0=jnp.abs(x0) + gapu), dict(x0=3 * jnp.linalg.pinv(A) @ y, u0=jnp.abs(3 * jnp.linalg.pinv(A) @ y) + gapu)]
        for i, st in enumerate(starts):
            s = l1ls.solve_jit(op, y, lam, tol=tol) if jit else l1ls.solve(op, y, lam, tol=tol, **st)
            z = A @ s.x - y
            c.eq('residual is y - A x (%d)' % i, s.r, -z)
            best = l1_best(np.asarray(A), np.asarray(y), float(lam))
            c.true('solution is optimal to the duality gap (%d)' % i, l_primal(s.x, z) <= best * (1 + 2 * tol) + 1e-9 * (1 + n2(y)))
    return fn


for jit in (False, True):
    CONTRACTS['C16'].append(Contract('l1ls.solve%s solution' % ('_jit' if jit else ''), f_l1ls_sol(jit), args=[AMN, YM, XN, GAPU, LAM], sym=False, deduce=False, dims=('m', 'n'), grid=[(1, 2)],
                                     num=[(2, 4), (4, 4), (6, 5)], samples=4, styles=('normal', 'int', 'small', 'big'), targets=('cvx.l1ls.solve',)))


# ------------------------------------------------------------------ SPGL1
class Math:
    """math.sqrt of a size, also when the size is symbolic"""
    def __getattr__(self, k):
        import math
        return getattr(math, k)

    @staticmethod
    def sqrt(n):
        import math
        return math.sqrt(n) if isinstance(n, (int, float)) else jnp.sqrt(jnp.asarray(n, dtype=float) if not hasattr(n, 'aval') else n)


def l1n(v):
    return jnp.sum(jnp.abs(v))


def any_proj(v, tau):
    """contract of project_to_l1_ball as used by the solvers: some point of the ball, a function of the arguments"""
    p = opaque('proj', v, v, jnp.asarray(tau, dtype=float))
    loops.assume(l1n(p) <= tau)
    return p


def half(r):
    return 0.5 * n2(r)


def cv_trial(al, sc):
    x, g, a0, fm, tau, gm = (X['cv'][k] for k in ('x', 'g', 'a0', 'fm', 'tau', 'gamma'))
    xn = X['proj'](x - al * sc * (a0 * g), tau)
    rn = X['b'] - X['times'](xn)
    dn = xn - x
    gtd = sc * (a0 * jnp.sum(g * dn))
    return dict(x_new=xn, r_new=rn, d_new=dn, gtd=gtd, f_val=half(rn), f_lim=fm + gm * al * gtd)


def cv_gen(h, init):
    al, sc = havoc(jnp.asarray(1.), 'alpha'), havoc(jnp.asarray(1.), 'scale')
    s = init._replace(alpha=al, scale=sc, d_norm_old=havoc(jnp.asarray(1.), 'd_norm_old'), n_iters=havoc_int(0, 'n_iters'), n_safe=havoc_int(0, 'n_safe'), **cv_trial(al, sc))
    X['ls'] = s
    return s


def cv_assume(s, init):
    return [s.alpha > 0, s.alpha <= 1, s.n_iters <= 10]


def cv_check(a, s, init):
    t = cv_trial(s.alpha, s.scale)
    a.eq('trial point is the projected step', s.x_new, t['x_new'])
    a.eq('residual of the trial point', s.r_new, t['r_new'])
    a.eq('displacement', s.d_new, t['d_new'])
    a.eq('directional derivative', s.gtd, t['gtd'])
    a.eq('value at the trial point', s.f_val, t['f_val'])
    a.eq('sufficient decrease limit', s.f_lim, t['f_lim'])
    a.true('step in (0, 1], at most 10 reductions', jnp.logical_and(jnp.logical_and(s.alpha > 0, s.alpha <= 1), jnp.logical_and(s.n_iters >= 0, s.n_iters <= 10)))
    if s is init:
        a.true('starts with the full step', jnp.logical_and(jnp.logical_and(s.alpha == 1, s.scale == 1), jnp.logical_and(s.n_iters == 0, s.n_safe == 0)))


def cv_step(a, s, s2, init):
    a.eq('halves the step', s2.alpha, s.alpha / 2)
    a.true('one more reduction', s2.n_iters == s.n_iters + 1)
    n = s.x_new.shape[0]
    dn = nrm(s.d_new) / Math.sqrt(n)
    a.eq('size of the displacement kept', s2.d_norm_old, dn)
    close = jnp.abs(dn - s.d_norm_old) <= 1e-6 * dn
    a.true('scale changed only when the displacements are too close', jnp.logical_or(close, jnp.logical_and(s2.scale == s.scale, s2.n_safe == s.n_safe)))
    a.true('count of changes', s2.n_safe == s.n_safe + jnp.where(close, 1, 0))


CURVY = LoopInv(cv_gen, cv_check, cv_assume, match=is_state('gtd', 'n_safe'), step=cv_step,
                go=lambda s: jnp.logical_and(jnp.logical_and(s.n_iters < 10, s.gtd < 0), s.f_val >= s.f_lim))


def wrap_curvy(case=None):
    real = spgl1.curvy_line_search

    def curvy_line_search(A, b, x, g, alpha0, f_max, proj, tau, gamma):
        X['cv'] = dict(x=x, g=g, a0=alpha0, fm=f_max, tau=tau, gamma=gamma)
        X['proj'] = proj
        s = real(A, b, x, g, alpha0, f_max, proj, tau, gamma)
        if case:
            want, newton = bp_newton(X['bst'], X['ls'])
            low = newton < X['bst'].tau
            for q in {'tau kept': [jnp.logical_not(want)], 'tau raised': [want, jnp.logical_not(low)], 'tau reduced': [want, low]}[case]:
                loops.assume(q, case=True)
        return s
    return [(spgl1, 'curvy_line_search', curvy_line_search)]


SP_LIBS = [(spgl1, 'math', Math())]


def curvy_run(c, op, A, b, x, g, a0, fm, proj, tau, gamma):
    """executed reference"""
    n = x.shape[0]
    X.update(times=lambda v: A @ v, b=b, proj=proj, cv=dict(x=x, g=g, a0=a0, fm=fm, tau=tau, gamma=gamma))
    al, sc, k, ns, old = 1., 1., 0, 0, 0.
    t = cv_trial(al, sc)
    while k < 10 and bool(t['gtd'] < 0) and bool(t['f_val'] >= t['f_lim']):
        dn = float(nrm(t['d_new'])) / np.sqrt(n)
        al /= 2
        if abs(dn - old) <= 1e-6 * dn:
            sc, ns = dn / (float(nrm(a0 * g)) / np.sqrt(n)) / 2. ** ns, ns + 1
        old, k = dn, k + 1
        t = cv_trial(al, sc)
    return t, al, sc, k, ns


def f_curvy(c, d, A, b, x, g, a0, fm, tau, gamma):
    times, trans, op = l_opaque(c, A, b, x)
    if c.mode == 'trace':
        X.update(times=times, b=b)
        s = wrap_curvy()[0][2](op, b, x, g, a0, fm, any_proj, tau, gamma)
        t = cv_trial(s.alpha, s.scale)
        c.true('the point is in the ball', l1n(s.x_new) <= tau)
    else:
        s = spgl1.curvy_line_search(op, b, x, g, a0, fm, spgl1.project_to_l1_ball, tau, gamma)
        t, al, sc, k, ns = curvy_run(c, op, A, b, x, g, a0, fm, spgl1.project_to_l1_ball, tau, gamma)
        c.static('step, scale and counts of the documented search', int(s.n_iters) == k and int(s.n_safe) == ns and float(s.alpha) == al and abs(float(s.scale) - sc) <= 1e-9 * (1 + sc))
        c.true('the point is in the ball', l1n(s.x_new) <= tau * (1 + 1e-9) + 1e-12)
    c.eq('projected step', s.x_new, t['x_new'])
    c.eq('its residual', s.r_new, t['r_new'])
    c.eq('its objective', s.f_val, t['f_val'])
    c.true('sufficient decrease, no descent direction, or ten reductions', jnp.logical_or(jnp.logical_or(s.f_val < s.f_lim, s.gtd >= 0), s.n_iters >= 10))


SA = Param('A', ('m', 'n'), gen=gen_mat)
GN = Param('g', ('n',), gen=gen_vec)
XB = Param('x', ('n',), gen=gen_vec)
A0P = Param('a0', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-2, 1))
FMP = Param('fm', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-3, 1))
TAU = Param('tau', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-1.5, 1))
GMP = Param('gamma', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-4, -0.5))
SKW = dict(dims=('m', 'n'), hyps=lambda p: [T.ge(p['n'], 2)], light=True, grid=[(2, 2)], num=[(1, 2), (3, 5), (4, 4), (2, 1)], samples=6)
CONTRACTS['C16'].append(Contract('spgl1.curvy_line_search', f_curvy, args=[SA, BM, XB, GN, A0P, FMP, TAU, GMP], loops=[CURVY], libs=SP_LIBS, targets=('cvx.spgl1.curvy_line_search',), **SKW))


def sp_consistent(a, s, tau, obj=True):
    a.eq('r = b - A x', s.r, X['b'] - X['times'](s.x))
    a.eq('g = -A^T r', s.g, -X['trans'](s.r))
    a.eq('latest objective is that of the iterate', s.f_past[0], half(s.r))
    a.eq('r_norm = |r|', s.r_norm, nrm(s.r))
    a.true('iterate in the ball of radius tau', l1n(s.x) <= tau)


def gap_of(s, tau):
    b = X['b']
    return jnp.abs(jnp.sum(s.r * (s.r - b)) + tau * jnp.max(jnp.abs(s.g))) / jnp.maximum(1, half(s.r))


def sp_base(init):
    x = havoc(init.x, 'x')
    r = X['b'] - X['times'](x)
    f = dict(x=x, r=r, g=-X['trans'](r), f_past=havoc(init.f_past, 'f_past'), r_norm=nrm(r), alpha=havoc(jnp.asarray(1.), 'alpha'), alpha_next=havoc(jnp.asarray(1.), 'alpha_next'),
             iterations=havoc_int(1, 'iterations'), n_ls_iters=havoc_int(0, 'n_ls'))
    return f


def sp_step(a, s, s2, x_before=None):
    """the spectral step and the history"""
    o = X['opt']
    a.eq('history of objectives: older ones shifted', s2.f_past[1:], s.f_past[:-1])
    dx, dg = s2.x - s.x, s2.g - s.g
    sts, sty = jnp.sum(dx * dx), jnp.sum(dx * dg)
    a.true('spectral step length', jnp.where(sty <= 0, s2.alpha_next == o['alpha_max'], s2.alpha_next == jnp.minimum(o['alpha_max'], jnp.maximum(sts / sty, o['alpha_min']))))
    a.true('one more iteration', s2.iterations == s.iterations + 1)
    a.true('line search reductions counted', s2.n_ls_iters == s.n_ls_iters + X['ls'].n_iters)
    a.eq('line search from the iterate', X['cv']['x'], s.x)
    a.eq('along the gradient', X['cv']['g'], s.g)
    a.eq('with the spectral step', X['cv']['a0'], s.alpha_next)
    a.eq('against the largest remembered objective', X['cv']['fm'], jnp.max(s.f_past))
    a.eq('sufficient decrease parameter', X['cv']['gamma'], o['gamma'])
    a.eq('step reported', s2.alpha, X['ls'].alpha)


# --- LASSO
def la_gen(h, init):
    f = sp_base(init)
    s = init._replace(**f)
    return s._replace(r_gap=gap_of(s, X['tau']), n_trans=s.iterations, n_times=s.iterations + s.n_ls_iters)


def sp_assume(s, init):
    return [l1n(s.x) <= X['tau'], s.f_past[0] == half(s.r), s.iterations <= jnp.maximum(X['opt']['max_iters'], 1)]


def la_check(a, s, init):
    sp_consistent(a, s, X['tau'])
    a.eq('relative duality gap', s.r_gap, gap_of(s, X['tau']))
    a.true('iterations within the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['opt']['max_iters'], 1)))
    a.true('multiplications counted', jnp.logical_and(s.n_trans == s.iterations, s.n_times == s.iterations + s.n_ls_iters))
    if s is init:
        a.eq('starts from the projected x0', s.x, spgl1.project_to_l1_ball(X['x0'], X['tau']))
        a.eq('all remembered objectives are the first', s.f_past, jnp.full(s.f_past.shape, half(s.r)))


def la_step(a, s, s2, init):
    sp_step(a, s, s2)
    a.eq('searches in the ball of radius tau', X['cv']['tau'], X['tau'])
    a.eq('takes the point of the line search', s2.x, X['ls'].x_new)


def la_opts(k, otol, gamma, amin, amax, maxit, **kw):
    o = dict(opt_tol=otol, gamma=gamma, alpha_min=amin, alpha_max=amax, memory=k, max_iters=maxit, **kw)
    X['opt'] = o
    return spgl1.SPGL1Options(**o)


def ball(v, q):
    """projection on the l1 ball, by bisection-free enumeration of the number of surviving entries"""
    v = np.asarray(v)
    if np.abs(v).sum() <= q:
        return v
    u = np.sort(np.abs(v))[::-1]
    for k in range(len(u), 0, -1):
        t = (u[:k].sum() - q) / k
        if u[k - 1] >= t:
            break
    m = np.abs(v)
    return np.where(m > t, v * (1 - t / np.where(m > 0, m, 1)), 0 * v)


def sp_replay(c, run, op, A, b, x0, o, tau=None, sigma=None):
    """the first iterations against the algorithm of the paper (van den Berg and Friedlander)"""
    proj = lambda v, q: jnp.asarray(ball(v, float(q)))
    lasso = sigma is None
    if lasso:
        x = proj(x0, tau)
    else:
        x, tau = x0, l1n(x0)
    f = lambda r: float(0.5 * n2(r))
    r = b - A @ x
    g = -A.T @ r
    if float(jnp.max(jnp.abs(g))) < 1e-6 * (1 + float(nrm(b))):
        return
    if lasso:
        d = proj(x - g, tau) - x
    else:
        tau = jnp.maximum(0, tau + nrm(r) * (nrm(r) - sigma) / jnp.max(jnp.abs(g)))
        d = -x
        if float(jnp.max(jnp.abs(d))) == 0:
            d = d + 1e-300
    a0 = float(jnp.clip(1 / jnp.max(jnp.abs(d)), o.alpha_min, o.alpha_max))
    fp = [f(r)] * o.memory
    changed, nl, nn = True, 0, 1
    nt, na = (1, 1) if lasso else (2, 2)
    for k in range(1, 6):
        s = run(k)
        if int(s.iterations) < k:
            return
        tol = 1e-6
        c.true('iterate %d' % k, nrm(s.x - x) <= tol * (1 + nrm(x)))
        c.true('objectives remembered at iteration %d' % k, jnp.max(jnp.abs(s.f_past - jnp.asarray(fp))) <= tol * (1 + max(fp)))
        c.static('counts at iteration %d' % k, (int(s.iterations), int(s.n_times), int(s.n_trans), int(s.n_ls_iters)) == (k, nt, na, nl), (k, nt, na, nl))
        c.true('next step length %d' % k, jnp.abs(s.alpha_next - a0) <= 1e-4 * a0)
        if not lasso:
            c.true('tau at iteration %d' % k, jnp.abs(s.tau - tau) <= tol * (1 + tau))
            c.static('Newton steps at iteration %d' % k, int(s.n_newton) == nn)
        t, al, sc, kk, ns = curvy_run(c, op, A, b, x, g, a0, max(fp), proj, tau, o.gamma)
        x2, r2 = t['x_new'], t['r_new']
        # decisions close to their threshold depend on rounding: stop comparing there
        if abs(float(t['f_val'] - t['f_lim'])) <= 1e-9 * (1 + max(fp)) or abs(float(t['gtd'])) <= 1e-9 * float(nrm(g)):
            return
        nt, na, nl = nt + kk + 1, na + 1, nl + kk
        if not lasso:
            rn, fv, ch = float(nrm(r2)), f(r2), abs(f(r2) - fp[0])
            ths = (ch - float(o.dec_tol) * fv, ch - 0.1 * fv * abs(rn - float(sigma)), rn - 2 * float(sigma))
            if min(abs(v) for v in ths) <= 1e-8:
                return
            want = ((ths[0] <= 0 and ths[2] > 0) or (ths[1] <= 0 and ths[2] <= 0)) and not changed
            gm = float(jnp.max(jnp.abs(A.T @ r2)))
            if gm < 1e-9:
                return
            if want:
                new = max(0., float(tau) + rn * (rn - float(sigma)) / gm)
                nn += 1
                if new < float(tau):
                    x2 = proj(x2, new)
                    r2 = b - A @ x2
                    nt, na = nt + 1, na + 1
                tau = jnp.asarray(new)
            changed = want
        g2 = -A.T @ r2
        dx, dg = x2 - x, g2 - g
        sts, sty = float(dx @ dx), float(dx @ dg)
        if sts <= 1e-16 * (1 + float(n2(x))):
            return
        a0 = float(o.alpha_max) if sty <= 0 else float(jnp.clip(sts / sty, o.alpha_min, o.alpha_max))
        x, r, g = x2, r2, g2
        fp = [f(r)] + fp[:-1]


def f_lasso(c, d, A, b, x0, tau, otol, gamma, amin, amax, maxit):
    times, trans, op = l_opaque(c, A, b, x0)
    o = la_opts(d['k'], otol, gamma, amin, amax, maxit)
    X.update(times=times, trans=trans, b=b, tau=tau, x0=x0)
    if c.mode == 'run':
        o = o._replace(memory=int(d['k']), alpha_min=1e-10, alpha_max=1e6)
    s = spgl1.solve_lasso_from(op, b, tau, x0, o)
    e = 0 if c.mode == 'trace' else 1e-9
    if c.mode == 'run':
        sp_replay(c, lambda k: spgl1.solve_lasso_from(op, b, tau, x0, o._replace(max_iters=k, opt_tol=0.)), op, A, b, x0, o, tau=tau)
    c.eq('residual is b - A x', s.r, b - times(s.x))
    c.eq('gradient is -A^T r', s.g, -trans(b - times(s.x)))
    c.eq('residual norm', s.r_norm, nrm(s.r))
    c.true('solution in the l1 ball', l1n(s.x) <= tau * (1 + e))
    c.true('iterations within the limit', s.iterations <= jnp.maximum(maxit, 1))
    c.true('multiplications counted', jnp.logical_and(s.n_trans == s.iterations, s.n_times == s.iterations + s.n_ls_iters))
    c.true('stops on the gap, a small residual or the limit', jnp.logical_or(jnp.logical_or(s.r_gap <= otol, s.r_norm < otol * nrm(b) + e), s.iterations >= maxit))
    if c.mode == 'run' and int(s.iterations) > 1:
        t = spgl1.solve_lasso_from(op, b, tau, x0, o._replace(max_iters=int(s.iterations) - 1))
        c.true('went on only while no stopping rule held', jnp.logical_and(t.r_gap > otol * (1 - 1e-6), t.r_norm >= otol * nrm(b) * (1 - 1e-6)))


def la_go(s):
    o = X['opt']
    return jnp.logical_and(jnp.logical_and(s.r_gap > o['opt_tol'], nrm(s.r) >= o['opt_tol'] * nrm(X['b'])), s.iterations < o['max_iters'])


OT = Param('otol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-6, -1))
AMI = Param('amin', (), pos=True, within=(1e-12, 1e-9))
AMA = Param('amax', (), pos=True, within=(1e3, 1e6))
MI2 = Param('maxit', (), 'i', lo=0, hi=25)
LKW = dict(dims=('m', 'n', 'k'), hyps=lambda p: [T.ge(p['n'], 2), T.ge(p['k'], 2)], light=True, grid=[(2, 2, 2)], num=[(1, 2, 2), (3, 5, 3), (4, 4, 1), (2, 1, 2)], samples=4)


def sp_libs(case=None):
    return SP_LIBS + wrap_curvy(case) + [(spgl1, 'project_to_l1_ball', any_proj)]


CONTRACTS['C16'].append(Contract('spgl1.solve_lasso_from', f_lasso, args=[SA, BM, XN, TAU, OT, GMP, AMI, AMA, MI2], libs=sp_libs(),
                                 loops=[CURVY, LoopInv(la_gen, la_check, sp_assume, match=is_state('r_gap', 'n_ls_iters'), step=la_step, go=la_go)], targets=('cvx.spgl1.solve_lasso_from',), **LKW))


# --- basis pursuit with inequality constraints
def errors_of(s):
    sg, f = X['sigma'], half(s.r)
    return jnp.abs(nrm(s.r) - sg) / jnp.maximum(1, nrm(s.r)), jnp.abs(f - sg * sg / 2) / jnp.maximum(1, f)


def bp_gen(h, init):
    f = sp_base(init)
    s = init._replace(**f, tau=havoc(jnp.asarray(1.), 'tau'), tau_changed=havoc(jnp.asarray(True), 'tau_changed'), r_gap=havoc(jnp.asarray(1.), 'r_gap'),
                      n_times=havoc_int(0, 'n_times'), n_trans=havoc_int(0, 'n_trans'), n_newton=havoc_int(1, 'n_newton'))
    e1, e2 = errors_of(s)
    s = X['bst'] = s._replace(r_res_error=e1, r_f_error=e2)
    return s


def bp_newton(s, ls):
    """whether tau is updated after this line search, and its Newton update"""
    o, sg = X['opt'], X['sigma']
    r0 = nrm(ls.r_new)
    g0 = jnp.max(jnp.abs(X['trans'](ls.r_new)))
    ch = jnp.abs(ls.f_val - s.f_past[0])
    want = jnp.logical_or(jnp.logical_and(ch <= o['dec_tol'] * ls.f_val, r0 > 2 * sg), jnp.logical_and(ch <= 0.1 * ls.f_val * jnp.abs(r0 - sg), r0 <= 2 * sg))
    return jnp.logical_and(want, jnp.logical_not(s.tau_changed)), jnp.maximum(0, s.tau + r0 * (r0 - sg) / g0)


def bp_assume(s, init):
    return [jnp.logical_or(s.iterations == 1, l1n(s.x) <= s.tau), s.tau >= 0, s.f_past[0] == half(s.r), s.iterations <= jnp.maximum(X['opt']['max_iters'], 1)]


def bp_check(a, s, init):
    a.eq('r = b - A x', s.r, X['b'] - X['times'](s.x))
    a.eq('g = -A^T r', s.g, -X['trans'](s.r))
    a.eq('latest objective is that of the iterate', s.f_past[0], half(s.r))
    a.eq('r_norm = |r|', s.r_norm, nrm(s.r))
    a.true('tau is not negative', s.tau >= 0)
    a.true('iterate in the ball of radius tau after the first iteration', jnp.logical_or(s.iterations == 1, l1n(s.x) <= s.tau))
    e1, e2 = errors_of(s)
    a.eq('relative error of the residual norm', s.r_res_error, e1)
    a.eq('relative error of the objective', s.r_f_error, e2)
    a.true('iterations within the limit', jnp.logical_and(s.iterations >= 1, s.iterations <= jnp.maximum(X['opt']['max_iters'], 1)))
    if s is init:
        x0 = X['x0']
        a.eq('starts from x0', s.x, spgl1.project_to_l1_ball(x0, l1n(x0)))
        a.eq('first Newton step on tau', s.tau, jnp.maximum(0, l1n(x0) + s.r_norm * (s.r_norm - X['sigma']) / jnp.max(jnp.abs(s.g))))


def bp_step(a, s, s2, init):
    sp_step(a, s, s2)
    a.eq('searches in the ball of radius tau', X['cv']['tau'], s.tau)
    ls = X['ls']
    want, newton = bp_newton(s, ls)
    a.true('tau changes when the objective settled and it did not just change', s2.tau_changed == want)
    a.true('Newton steps counted', s2.n_newton == s.n_newton + jnp.where(want, 1, 0))
    a.eq('tau makes a Newton step on the Pareto curve or stays', s2.tau, jnp.where(want, newton, s.tau))
    red = s2.tau < s.tau
    a.true('the point of the line search, projected again if tau was reduced',
           jnp.all(s2.x == jnp.where(red, spgl1.project_to_l1_ball(ls.x_new, s2.tau), ls.x_new)))
    a.true('multiplications counted', jnp.logical_and(s2.n_trans == s.n_trans + 1 + jnp.where(red, 1, 0), s2.n_times == s.n_times + 1 + ls.n_iters + jnp.where(red, 1, 0)))


def bp_stop(s, e=0):
    o, sg = X['opt'], X['sigma']
    root = s.r_res_error <= o['opt_tol'] + min(e, 0)
    done = jnp.logical_or(jnp.logical_or(s.r_norm <= sg + e, root), s.r_norm <= o['bp_tol'] * nrm(X['b']) + e)
    near = jnp.logical_or(s.r_gap <= jnp.maximum(o['opt_tol'], s.r_f_error) + min(e, 0), root)
    return jnp.logical_or(jnp.logical_and(done, near), jnp.logical_or(s.iterations >= o['max_iters'], s.n_times + s.n_trans >= o['max_matvec']))


def f_bpic(c, d, A, b, x0, sigma, otol, gamma, amin, amax, maxit, dtol, btol, maxmv):
    times, trans, op = l_opaque(c, A, b, x0)
    o = la_opts(d['k'], otol, gamma, amin, amax, maxit, dec_tol=dtol, bp_tol=btol, max_matvec=maxmv)
    X.update(times=times, trans=trans, b=b, sigma=sigma, x0=x0)
    if c.mode == 'run':
        o = o._replace(memory=int(d['k']), alpha_min=1e-10, alpha_max=1e6)
    s = spgl1.solve_bpic_from(op, b, sigma, x0, o)
    e = 0 if c.mode == 'trace' else 1e-9
    if c.mode == 'run':
        sp_replay(c, lambda k: spgl1.solve_bpic_from(op, b, sigma, x0, o._replace(max_iters=k, opt_tol=0.)), op, A, b, x0, o, sigma=sigma)
    c.eq('residual is b - A x', s.r, b - times(s.x))
    c.eq('gradient is -A^T r', s.g, -trans(b - times(s.x)))
    c.eq('residual norm', s.r_norm, nrm(s.r))
    c.true('solution in the l1 ball of radius tau', jnp.logical_or(s.iterations == 1, l1n(s.x) <= s.tau * (1 + e) + e))
    c.true('iterations within the limit', s.iterations <= jnp.maximum(maxit, 1))
    c.true('stops at a point of the Pareto curve with the residual at sigma (or below), or at a limit', bp_stop(s, e))
    if c.mode == 'run' and int(s.iterations) > 1:
        t = spgl1.solve_bpic_from(op, b, sigma, x0, o._replace(max_iters=int(s.iterations) - 1))
        X['opt'] = dict(X['opt'], max_iters=maxit)
        c.true('went on only while no stopping rule held', jnp.logical_not(bp_stop(t, -1e-7)))


SG = Param('sigma', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-3, 0))
DT_ = Param('dtol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-5, -2))
BT = Param('btol', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-8, -5))
MMV = Param('maxmv', (), 'i', lo=4, hi=60)
for case in ('tau kept', 'tau raised', 'tau reduced'):
    CONTRACTS['C16'].append(Contract('spgl1.solve_bpic_from, ' + case, f_bpic, args=[SA, BM, XN, SG, OT, GMP, AMI, AMA, MI2, DT_, BT, MMV], libs=sp_libs(case),
                                     loops=[CURVY, LoopInv(bp_gen, bp_check, bp_assume, match=is_state('r_gap', 'n_newton'), step=bp_step, go=lambda s: jnp.logical_not(bp_stop(s)))], targets=('cvx.spgl1.solve_bpic_from',), **LKW))


# --- the projections of spgl1
from c12_opt import l1_posts, XS, QS, kwl, C_


def f_sp_ball(c, d, x, q):
    p = spgl1.project_to_l1_ball(x, q)
    l1_posts(c, x, p, q, l1n(x) <= q)
    if c.mode == 'run' and x.shape[0] % 2 == 0:
        m = x.reshape((2, -1))
        c.eq('matrices are projected as vectors', spgl1.project_to_l1_ball(m, q), p.reshape((2, -1)))


def f_sp_ball_at(c, d, x, b, q):
    r = x - b
    l1_posts(c, r, spgl1.project_to_l1_ball_at(x, b, q) - b, q, l1n(r) <= q)


def f_sp_ball_cx(c, d, z, q):
    p = spgl1.project_to_l1_ball(z, q)
    c.eq('complex: magnitudes are projected, phases kept', p, jnp.asarray(ball(z, float(q))))


ZC = Param('z', ('n',), 'c')
CONTRACTS['C16'] += [
    Contract('spgl1.project_to_l1_ball', f_sp_ball, args=[XS, QS], targets=('cvx.spgl1.project_to_l1_ball',), **kwl),
    Contract('spgl1.project_to_l1_ball_at', f_sp_ball_at, args=[XS, C_, QS], targets=('cvx.spgl1.project_to_l1_ball_at',), **{**kwl, 'grid': [1, 2]}),
    Contract('spgl1.project_to_l1_ball complex', f_sp_ball_cx, args=[ZC, QS], targets=('cvx.spgl1.project_to_l1_ball',), deduce=False, **kwl)]


# --- solutions of spgl1
def f_sp_sol(form, cx=False, jit=False):
    def fn(c, d, A, b, u, tau, w):
        m, n = A.shape
        c.assume(m <= n)
        if cx:
            A = A + 1j * jnp.asarray(np.roll(np.asarray(A), 1, 1)) * 0.5
            A = jnp.asarray(np.linalg.qr(np.asarray(A).conj().T)[0].conj().T)
            b = b + 1j * b[::-1] * 0.3
        op = mat(A)
        AH = jnp.conj(A.T)
        o = spgl1.SPGL1Options(max_iters=2000, opt_tol=1e-6, ls_tol=1e-9, bp_tol=1e-7)
        if form == 'lasso':
            s = (spgl1.solve_lasso_jit if jit else spgl1.solve_lasso)(op, b, tau, options=o) if not cx else spgl1.solve_lasso_from(op, b, tau, jnp.zeros(n, dtype=complex), options=o)
        elif form == 'bpic':
            sigma = float(nrm(b)) * (0.02 + 0.9 * float(w[0] - 0.3) / 2.7)
            s = (spgl1.solve_bpic_jit if jit else spgl1.solve_bpic)(op, b, sigma, options=o)
        else:
            s = (spgl1.solve_bp_jit if jit else spgl1.solve_bp)(op, b, options=o)
        r = b - A @ s.x
        c.eq('residual is b - A x', s.r, r)
        c.eq('residual norm', s.r_norm, nrm(r))
        c.eq('gradient is -A^H r', s.g, -AH @ r)
        g = AH @ r
        gm, x1 = jnp.max(jnp.abs(g)), l1n(s.x)
        scale = 1 + n2(b)
        ip = jnp.real(jnp.sum(jnp.conj(g) * s.x))
        if int(s.iterations) >= 2000:
            return
        # optimality on the l1 ball: <g, x> = |g|_inf tau, i.e. x aligned with the largest correlations
        if form == 'lasso':
            c.true('in the l1 ball', x1 <= tau * (1 + 1e-9))
            c.true('no point of the ball has a smaller residual', gm * tau - ip <= 1e-4 * scale)
        elif form == 'bpic':
            c.true('constraint on the residual', nrm(r) <= sigma + 1e-4 * (1 + sigma))
            # the documented stopping rule also accepts a feasible point below the bound whose gap is smaller than the distance to the bound
            root = jnp.abs(nrm(r) - sigma) <= 1e-4 * (1 + sigma)
            c.true('at the bound no feasible point has a smaller l1 norm', jnp.logical_or(jnp.logical_not(root), gm * x1 - ip <= 1e-3 * scale))
        else:
            c.true('constraint on the residual', nrm(r) <= 1e-3 * (1 + nrm(b)))
            if not cx:
                v = l1_value(np.asarray(A), np.asarray(b), np.ones(n), 0., False)
                if v is not None:
                    c.true('the l1 norm is the smallest possible', x1 <= v + 1e-2 * (1 + v))
    return fn


for form in ('lasso', 'bpic', 'bp'):
    for cx, jit in ((False, False), (True, False), (False, True)):
        CONTRACTS['C16'].append(Contract('spgl1.solve_%s%s solution%s' % (form, '_jit' if jit else '', ' complex' if cx else ''), f_sp_sol(form, cx, jit), args=[AMN, BM, Param('u', ('n',), gen=gen_vec), TAU, WN],
                                         sym=False, deduce=False, dims=('m', 'n'), grid=[(1, 2)], num=[(2, 4), (3, 5), (4, 4)], samples=4, styles=('normal', 'int'), targets=('cvx.spgl1.solve_' + form,)))


# ------------------------------------------------------------------ FOCUSS
def any_solve(G, y):
    """assumed contract of linalg.solve: G s = y (G invertible)"""
    s = havoc(y, 's')
    X['sol'] = (G, y, s)
    loops.assume(jnp.all(G @ s == y))
    return s


def fo_gen(h, init):
    x = havoc(init.x, 'x')
    r = X['y'] - X['Phi'] @ x
    k = havoc_int(0, 'iterations')
    return init._replace(x=x, r=r, r_norm_sqr=n2(r), iterations=k)


def fo_check(a, s, init):
    a.eq('r = y - Phi x', s.r, X['y'] - X['Phi'] @ s.x)
    a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(s.r))
    a.true('iterations within the limit', jnp.logical_and(s.iterations >= 0, s.iterations <= jnp.maximum(X['maxit'], 0)))
    if s is init:
        a.eq('starts from ones', s.x, jnp.ones(s.x.shape))


def fo_weighted(x):
    Phi = X['Phi']
    w = jnp.abs(x) if X['p'] == 1 else (jnp.ones(x.shape) if X['p'] == 0 else jnp.abs(x) ** X['p'])
    W2 = w * w
    return W2, (Phi * W2) @ Phi.T


def fo_step(a, s, s2, init):
    Phi, y = X['Phi'], X['y']
    W2, G = fo_weighted(s.x)
    G1, y1, sol = X['sol']
    a.eq('weighted Gram matrix', G1, G)
    a.eq('right hand side', y1, y)
    a.eq('weighted least norm estimate', s2.x, W2 * (Phi.T @ sol))
    a.eq('meets the measurements', Phi @ s2.x, G @ sol)
    a.true('one more iteration', s2.iterations == s.iterations + 1)


def fo_ref(Phi, y, p, iters):
    Phi, y = np.asarray(Phi), np.asarray(y)
    x = np.ones(Phi.shape[1])
    for _ in range(iters):
        W = np.abs(x) ** float(p)
        x = W * (np.linalg.pinv(Phi * W) @ y)
    return x


def f_focuss(p):
    def fn(c, d, Phi, y, maxit):
        X.update(Phi=Phi, y=y, maxit=maxit, p=p)
        s = focuss.matrix_solve_noiseless(Phi, y, p=p, max_iters=maxit)
        c.eq('residual is y - Phi x', s.r, y - Phi @ s.x)
        c.eq('its squared norm', s.r_norm_sqr, n2(y - Phi @ s.x))
        c.true('as many iterations as asked', s.iterations == jnp.maximum(maxit, 0))
        if c.mode == 'run':
            k = max(int(maxit), 0)
            m, n = Phi.shape
            if m <= n:
                c.true('measurements met', jnp.logical_or(maxit < 1, n2(s.r) <= 1e-10 * (1 + n2(y))))
                c.true('estimate of the documented iteration', nrm(s.x - fo_ref(Phi, y, p, k)) <= 1e-5 * (1 + nrm(s.x)))
    return fn


def f_fo_one(p):
    def fn(c, d, Phi, y, x):
        X.update(Phi=Phi, y=y, p=p)
        x2 = focuss.step_noiseless(Phi, y, x, p)
        W2, G = fo_weighted(x)
        if c.mode == 'trace':
            G1, y1, sol = X['sol']
            c.eq('weighted Gram matrix', G1, G)
            c.eq('right hand side', y1, y)
            c.eq('weighted least norm estimate', x2, W2 * (Phi.T @ sol))
        else:
            c.true('weighted least norm estimate', nrm(x2 - W2 * (Phi.T @ jnp.linalg.solve(G, y))) <= 1e-7 * (1 + nrm(x2)))
    return fn


FPHI = Param('Phi', ('m', 'n'), gen=gen_rows)
FX = Param('x', ('n',), gen=lambda rng, shape, style, env: rng.uniform(0.5, 2, shape) * rng.choice([-1, 1], shape))
SOLVE = [(jnp.linalg, 'solve', any_solve)]
for p in (1., 0.5, 0.):
    k = dict(dims=('m', 'n'), hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['n'], 2)], light=True, grid=[(2, 2)], num=[(1, 2), (2, 4), (3, 5)], samples=4, styles=('normal', 'int', 'big'), libs=SOLVE)
    CONTRACTS['C16'].append(Contract('focuss.matrix_solve_noiseless p=%g' % p, f_focuss(p), args=[FPHI, YM, Param('maxit', (), 'i', lo=0, hi=4)],
                                     loops=[LoopInv(fo_gen, fo_check, lambda s, i: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=is_state('r_norm_sqr', 'iterations'), step=fo_step)],
                                     targets=('cvx.focuss.matrix_solve_noiseless',), **k))
    CONTRACTS['C16'].append(Contract('focuss.step_noiseless p=%g' % p, f_fo_one(p), args=[FPHI, YM, FX], targets=('cvx.focuss.step_noiseless',), **k))
