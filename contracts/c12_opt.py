"""C12 projections and indicators, C13 proximal operators, C14 smooth functions."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import cr.nimble as cnb
from cr.sparse import opt
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv

CONTRACTS = {k: [] for k in ('C12', 'C13', 'C14')}


class Positive:
    """a positive scalar of unknown value: guards such as `if q <= 0: raise` are decided by the precondition q > 0"""

    def __init__(self, v):
        self.v = v

    def __jax_array__(self):
        return jnp.asarray(self.v)

    def _cmp(self, o):
        if isinstance(o, (int, float)) and o <= 0:
            return True
        raise TypeError('undecided comparison')

    def __le__(self, o):
        return not self._cmp(o)
    __lt__ = __le__

    def __gt__(self, o):
        return self._cmp(o)
    __ge__ = __gt__


def _op(name):
    def f(self, *o):
        return getattr(jnp.asarray(self.v), name)(*[getattr(x, 'v', x) for x in o])
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__neg__', 'astype'):
    setattr(Positive, _n, _op(_n))


def pos(c, q):
    return Positive(q) if c.mode == 'trace' else float(q)


def n2(r):
    return jnp.sum(jnp.real(jnp.conj(r) * r))


def nrm(r):
    return jnp.sqrt(n2(r))


def l1(r):
    return jnp.sum(jnp.abs(r))


def slack(c, v):
    """rounding allowance of executions"""
    return v * (1 + 1e-9) + 1e-12 if c.mode == 'run' else v


def raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    except Exception:
        return False
    return False


V_ = Param('x', ('n',))
VC = Param('x', ('n',), 'c')
Z_ = Param('z', ('n',))
Q_ = Param('q', (), pos=True)
C_ = Param('b', ('n',))
L_ = Param('l', ('n',))
G_ = Param('g', ('n',), nonneg=True)      # u = l + g
W_ = Param('w', ('n',))
kw1 = dict(dims=('n',), grid=[1, 2, 3], num=[2, 5, 9], samples=8)
add = CONTRACTS['C12'].append


# ------------------------------------------------------------------ sets with a coordinatewise description
def f_box(which):
    def fn(c, d, x, l, g, z):
        u = l + g
        kw = dict(l=dict(l=l), u=dict(u=u), lu=dict(l=l, u=u))[which]
        p = opt.proj_box(**kw)(x)
        c.shape('projection', p, x.shape)
        lo = l if 'l' in which else jnp.minimum(jnp.minimum(x, z), l) - 1
        hi = u if 'u' in which else jnp.maximum(jnp.maximum(x, z), u) + 1
        c.true('the projection is in the box', jnp.logical_and(p >= lo, p <= hi))
        zz = jnp.minimum(jnp.maximum(z, lo), hi)
        c.le('no point of the box is nearer', (x - p) * (zz - p), 0. if c.mode == 'trace' else 1e-9)
        c.eq('indicator', opt.indicator_box(**kw)(x), jnp.where(jnp.logical_and(jnp.all(x >= lo), jnp.all(x <= hi)), 0., jnp.inf))
        c.eq('indicator of a point in the box', opt.indicator_box(**kw)(zz), 0.)
    return fn


for which in ('l', 'u', 'lu'):
    add(Contract('box[%s]' % which, f_box(which), args=[V_, L_, G_, Z_], targets=('opt.proj_box', 'opt.indicator_box'), **kw1))


def f_simple(c, d, x, b, s):
    c.eq('zero', opt.proj_zero()(x), jnp.zeros_like(x))
    c.eq('whole space', opt.proj_identity()(x), x)
    c.eq('singleton', opt.proj_singleton(b)(x), b)
    c.eq('singleton broadcast', opt.proj_singleton(s)(x), s * jnp.ones_like(x))
    c.eq('indicator of zero', opt.indicator_zero()(x), jnp.where(jnp.all(x == 0), 0., jnp.inf))
    c.eq('indicator of zero at zero', opt.indicator_zero()(jnp.zeros_like(x)), 0.)
    c.eq('indicator of a singleton', opt.indicator_singleton(b)(x), jnp.where(jnp.all(x == b), 0., jnp.inf))
    c.eq('indicator of a singleton at its point', opt.indicator_singleton(b)(b), 0.)
    c.eq('indicator of a broadcast singleton', opt.indicator_singleton(s)(s * jnp.ones_like(x)), 0.)
    c.eq('indicator of a broadcast singleton elsewhere', opt.indicator_singleton(s)(x), jnp.where(jnp.all(x == s), 0., jnp.inf))


add(Contract('zero, singleton, whole space', f_simple, args=[V_, C_, Param('s')], targets=('opt.proj_zero', 'opt.proj_identity', 'opt.proj_singleton', 'opt.indicator_zero', 'opt.indicator_singleton'), **kw1))


def f_box_static(c, d):
    for f in (opt.proj_box, opt.indicator_box):
        c.static('a box without bounds is rejected', raises(ValueError, f))
    for q in (0., -1.):
        for f in (opt.proj_l2_ball, opt.indicator_l2_ball):
            c.static('a ball without positive radius is rejected', raises(ValueError, lambda: f(q)))


add(Contract('rejected arguments', f_box_static, targets=('opt.proj_box', 'opt.proj_l2_ball'), sym=False, grid=[{}], num=[{}]))


def f_box_affine(which):
    def fn(c, d, x, l, g, a, alpha, tol):
        u = l + g
        ind = opt.indicator_box_affine(l if 'l' in which else None, u if 'u' in which else None, a, alpha=alpha, tol=tol)(x)
        ok = jnp.abs(jnp.sum(a * x) - alpha) <= tol
        if 'l' in which:
            ok = jnp.logical_and(ok, jnp.all(x >= l))
        if 'u' in which:
            ok = jnp.logical_and(ok, jnp.all(x <= u))
        c.eq('indicator', ind, jnp.where(ok, 0., jnp.inf))
    return fn


for which in ('', 'l', 'u', 'lu'):
    inside = Param('x', ('n',), gen=lambda rng, shape, style, env: rng.uniform(-1, 1, shape))
    add(Contract('indicator_box_affine[%s]' % which, f_box_affine(which), args=[V_, L_, G_, Param('a', ('n',)), Param('alpha'), Param('tol', (), pos=True, gen=lambda rng, shape, style, env: 3. if style != 'small' else 0.3)],
                 targets=('opt.indicator_box_affine',), **kw1))


# ------------------------------------------------------------------ Euclidean balls
def f_l2ball(center):
    def fn(c, d, x, z, q, *b):
        b = b[0] if center else jnp.zeros_like(x)
        x = x + b if center else x
        qq = pos(c, q)
        p = (opt.proj_l2_ball(q=qq, b=b) if center else opt.proj_l2_ball(q=qq))(x)
        r, pr = x - b, p - b
        N = nrm(r)
        if center:
            c.assume(q > 1e-7)
        qe = q - 1e-7 if center else q       # the centred form stays 1e-7 inside the ball
        c.true('the projection is in the ball', nrm(pr) <= slack(c, q))
        c.eq('closed form', pr * jnp.where(N > q, N, 1.), jnp.where(N > q, qe, 1.) * r)
        if c.mode == 'run':
            zz = z * jnp.minimum(1, q / jnp.maximum(nrm(z), 1e-30))
            c.le('no point of the ball is nearer', (r - pr) @ (zz - pr), 1e-6 * (1 + N * q))
            c.eq('indicator after projection', (opt.indicator_l2_ball(q=float(slack(c, q)), b=b) if center else opt.indicator_l2_ball(q=float(slack(c, q))))(p), 0.)
        c.eq('indicator', (opt.indicator_l2_ball(q=qq, b=b) if center else opt.indicator_l2_ball(q=qq))(x), jnp.where(n2(r) <= q * q, 0., jnp.inf))
    return fn


for center in (False, True):
    add(Contract('l2 ball' + (' with centre' if center else ''), f_l2ball(center), args=[V_, Z_, Q_] + ([C_] if center else []), targets=('opt.proj_l2_ball', 'opt.indicator_l2_ball'), **kw1))


def f_l2vi(outside):
    def fn(c, d, x, z, q):
        """nearest point, from the Cauchy-Schwarz inequality"""
        p = opt.proj_l2_ball(q=pos(c, q))(x)
        c.assume(n2(z) <= q * q)
        if c.mode == 'trace':
            c.assume(x @ z <= nrm(x) * q)     # Cauchy-Schwarz and |z| <= q
            c.assume((n2(x) > q * q) if outside else (n2(x) <= q * q))
        c.le('no point of the ball is nearer', (x - p) @ (z - p), 0. if c.mode == 'trace' else 1e-9 * (1 + n2(x)))
    return fn


for outside in (False, True):
    add(Contract('l2 ball nearest point' + (' outside' if outside else ' inside'), f_l2vi(outside), args=[V_, Param('z', ('n',), gen=lambda rng, shape, style, env: rng.uniform(-0.1, 0.1, shape)), Q_], targets=('opt.proj_l2_ball',), **kw1))


def f_ball_A(kind):
    def fn(c, d, A, x, b, q):
        qq = pos(c, q) if kind == 'l2' else q
        f = opt.indicator_l2_ball if kind == 'l2' else opt.indicator_l1_ball
        inside = (lambda r: nrm(r) <= q) if kind == 'l2' else (lambda r: l1(r) <= q)
        c.eq('indicator with matrix and centre', f(q=qq, A=A, b=b)(x), jnp.where(inside(A @ x - b), 0., jnp.inf))
        c.eq('indicator with matrix', f(q=qq, A=A)(x), jnp.where(inside(A @ x), 0., jnp.inf))
    return fn


AMN = Param('A', ('m', 'n'))
BM = Param('b', ('m',))
kw2 = dict(dims=('m', 'n'), grid=[(1, 1), (2, 2)], num=[(2, 3), (4, 3), (5, 7)], samples=8)
QB = Param('q', (), pos=True, gen=lambda rng, shape, style, env: abs(rng.standard_normal()) * 4 * np.sqrt(env.get('m', 1) * env['n']))
for kind in ('l2', 'l1'):
    add(Contract('indicator %s ball with matrix' % kind, f_ball_A(kind), args=[AMN, V_, BM, QB], targets=('opt.indicator_%s_ball' % kind,), **kw2))


# ------------------------------------------------------------------ l1 ball
def f_l1ind(c, d, x, b, q):
    c.eq('indicator', opt.indicator_l1_ball(q=q)(x), jnp.where(l1(x) <= q, 0., jnp.inf))
    c.eq('indicator with centre', opt.indicator_l1_ball(q=q, b=b)(x), jnp.where(l1(x - b) <= q, 0., jnp.inf))


add(Contract('indicator l1 ball', f_l1ind, args=[V_, C_, QB], targets=('opt.indicator_l1_ball',), **kw1))


def l1_posts(c, x, p, q, inside):
    """p is the projection of x on the l1 ball of radius q: the optimality conditions"""
    ax, ap = jnp.abs(x), jnp.abs(p)
    c.true('the projection is in the ball', l1(p) <= slack(c, q))
    c.eq('points of the ball stay', jnp.where(inside, p, x), x)
    c.true('outside points go to the boundary', jnp.logical_or(inside, l1(p) >= (q if c.mode == 'trace' else q * (1 - 1e-9) - 1e-12)))
    c.true('entries shrink towards zero', jnp.logical_and(x * p >= 0, ap <= slack(c, ax)))
    e = 0. if c.mode == 'trace' else 1e-9 * (1 + jnp.max(ax))
    # one threshold: entries on the support shrink by at least as much as any other entry
    c.true('one common threshold', jnp.logical_or((ap <= e)[:, None], (ax - ap)[:, None] >= (ax - ap)[None, :] - e))


def f_l1ball(c, d, x, q):
    inside = l1(x) <= q
    l1_posts(c, x, opt.proj_l1_ball(q=q)(x), q, inside)


def f_l1ballb(c, d, x, b, q):
    r = x - b
    l1_posts(c, r, opt.proj_l1_ball(q=q, b=b)(x) - b, q, l1(r) <= q)


XS = Param('x', ('n',), gen=lambda rng, shape, style, env: rng.integers(-3, 4, shape).astype(float) if style == 'int' else rng.standard_normal(shape) * (3 if style == 'big' else 1))
QS = Param('q', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 1.2) * env['n'] if style != 'int' else float(rng.integers(1, 4)))
kwl = dict(dims=('n',), sym=False, grid=[1, 2, 3], num=[2, 5, 9, 30], samples=10, timeout=20000)
add(Contract('l1 ball', f_l1ball, args=[XS, QS], targets=('opt.proj_l1_ball',), **kwl))
add(Contract('l1 ball with centre', f_l1ballb, args=[XS, C_, QS], targets=('opt.proj_l1_ball',), **{**kwl, 'grid': [1, 2]}))


# ------------------------------------------------------------------ second order cone
def f_cone(case):
    def fn(c, d, x, t):
        if c.mode == 'trace':
            c.assume({'inside': nrm(x) <= t, 'polar': jnp.logical_and(nrm(x) <= -t, t < 0), 'outside': jnp.logical_and(nrm(x) > t, nrm(x) > -t)}[case])
        y = jnp.append(x, t)
        p = opt.proj_conic()(y)
        c.shape('projection', p, y.shape)
        px, pt = p[:-1], p[-1]
        e = 0. if c.mode == 'trace' else 1e-8 * (1 + n2(y))
        c.true('the projection is in the cone', jnp.logical_and(n2(px) <= pt * pt + e, pt >= 0))
        # Moreau: y - p lies in the polar cone and is orthogonal to p
        c.true('the remainder is in the polar cone', jnp.logical_and(n2(x - px) <= (t - pt) ** 2 + e, t - pt <= e))
        c.true('the remainder is orthogonal to the projection', jnp.abs((x - px) @ px + (t - pt) * pt) <= e)
        c.eq('indicator', opt.indicator_conic()(y), jnp.where(jnp.logical_and(n2(x) <= t * t, t >= 0), 0., jnp.inf))
    return fn


for case in ('inside', 'polar', 'outside'):
    add(Contract('second order cone[%s]' % case, f_cone(case), args=[V_, Param('t')], targets=('opt.proj_conic', 'opt.indicator_conic'), **kw1))


# ------------------------------------------------------------------ affine sets
def gen_full(rng, shape, style, env):
    return rng.standard_normal(shape) * {'big': 4., 'small': 0.2}.get(style, 1.)


def f_affine_ind(c, d, A, x, b):
    c.assume(n2(b) > 0)
    r = A @ x - b
    c.eq('indicator', opt.indicator_affine(A, b)(x), jnp.where(nrm(r) / nrm(b) > 1e-10, jnp.inf, 0.))
    if c.mode == 'run':
        c.eq('indicator at a solution', opt.indicator_affine(A, A @ x)(x), 0.)
        c.eq('indicator of the null space at zero', opt.indicator_affine(A)(jnp.zeros_like(x)), 0.)
        if float(n2(A @ x)) > 0:
            c.eq('indicator of the null space', opt.indicator_affine(A)(x), jnp.inf)


add(Contract('indicator affine', f_affine_ind, args=[AMN, V_, BM], targets=('opt.indicator_affine',), **kw2))


def f_affine(homog):
    def fn(c, d, Q, R, x, w, *b):
        """A = R' Q' with orthonormal columns Q and upper triangular R: every full row rank matrix"""
        m, n = R.shape[0], Q.shape[0]
        if c.mode == 'trace':
            R = jnp.stack([jnp.stack([R[i, j] if j >= i else jnp.asarray(0.) for j in range(m)]) for i in range(m)])
            for i in range(m):
                c.assume(R[i, i] != 0)
                for j in range(m):
                    c.assume(jnp.sum(Q[:, i] * Q[:, j]) == (1. if i == j else 0.))
            X['R'] = R
        A = (Q @ R).T
        bb = b[0] if b else jnp.zeros(m)
        p = (opt.proj_affine(A, bb) if b else opt.proj_affine(A))(x)
        c.shape('projection', p, x.shape)
        c.eq('the projection solves the system', A @ p, bb)
        c.eq('the remainder is orthogonal to the null space', (x - p) - Q @ (Q.T @ (x - p)), jnp.zeros(n))
    return fn


X = {}


def qr_contract(a, mode='reduced', **kw):
    if mode != 'r':
        raise NotImplementedError
    return X['R']


QR = loops.lib('cr.sparse._src.opt.projectors.basic', 'qr', qr_contract)
QP = Param('Q', ('n', 'm'), gen=lambda rng, shape, style, env: np.linalg.qr(rng.standard_normal(shape))[0])
RP = Param('R', ('m', 'm'), gen=lambda rng, shape, style, env: np.triu(rng.standard_normal(shape)) + 2 * np.eye(shape[0]))
for homog in (False, True):
    for m in (1, 2):
        QPm, RPm = Param('Q', ('n', m), gen=QP.gen), Param('R', (m, m), gen=RP.gen)
        add(Contract('affine set[m=%d%s]' % (m, ',b=0' if homog else ''), f_affine(homog), dims=('n',), args=[QPm, RPm, V_, W_] + ([] if homog else [Param('b', (m,))]), libs=QR,
                     grid=[m, m + 1], num=[m + 1, m + 3, 9], samples=6, light=True, targets=('opt.proj_affine',), hyps=lambda p, m=m: [T.ge(p['n'], m)]))
    add(Contract('affine set' + ('[b=0]' if homog else ''), f_affine(homog), dims=('m', 'n'), args=[QP, RP, V_, W_] + ([] if homog else [BM]), sym=False, deduce=False,
                 grid=[(3, 3)], num=[(3, 5), (5, 9)], samples=6, targets=('opt.proj_affine',)))


# ------------------------------------------------------------------ older helpers
def f_proj_old(cplx):
    def fn(c, d, x, r):
        p = opt.project_to_ball(x, radius=r)
        N = nrm(x)
        c.eq('ball', p * jnp.where(N > r, N, 1.), jnp.where(N > r, r, 1.) * x)
        b = opt.project_to_box(x, radius=r)
        ax = jnp.abs(x)
        c.eq('box', b * jnp.maximum(ax, r), x * r)
        if not cplx:
            c.true('box: in range', jnp.logical_and(b >= -slack(c, r), b <= slack(c, r)))
        u = opt.project_to_real_upper_limit(x, limit=r)
        c.eq('real upper limit', u, jnp.minimum(jnp.real(x), r))
        c.eq('default radius', opt.project_to_box(x), opt.project_to_box(x, 1.))
        c.eq('default ball', opt.project_to_ball(x), opt.project_to_ball(x, 1.))
        c.eq('default limit', opt.project_to_real_upper_limit(x), jnp.minimum(jnp.real(x), 1.))
    return fn


for cplx in (False, True):
    add(Contract('project_to_ball/box/limit' + (' complex' if cplx else ''), f_proj_old(cplx), args=[VC if cplx else V_, Q_],
                 targets=('opt.project_to_ball', 'opt.project_to_box', 'opt.project_to_real_upper_limit'), **kw1))


# ------------------------------------------------------------------ every projection is idempotent and nonexpansive
def projectors(b, q, A):
    n = b.shape[0]
    return [('zero', opt.proj_zero()), ('identity', opt.proj_identity()), ('singleton', opt.proj_singleton(b)), ('box', opt.proj_box(b - q, b + 2 * q)), ('lower', opt.proj_box(l=b)),
            ('upper', opt.proj_box(u=b)), ('l2', opt.proj_l2_ball(q)), ('l2 centre', opt.proj_l2_ball(q, b)), ('l1', opt.proj_l1_ball(q)), ('l1 centre', opt.proj_l1_ball(q, b)),
            ('cone', opt.proj_conic()), ('affine', opt.proj_affine(A, A @ b))]


def f_idem(c, d, x, z, b, q, A):
    q = float(q)
    for nm, P in projectors(b, q, A):
        p, s = P(x), P(z)
        c.eq(nm + ': idempotent', P(p), p)
        c.le(nm + ': nonexpansive', nrm(p - s), nrm(x - z) * (1 + 1e-9) + 1e-6)
        c.static(nm + ': integer input', np.allclose(P(np.round(np.asarray(x)).astype(int)), P(jnp.round(x)), atol=1e-6))


add(Contract('idempotent and nonexpansive', f_idem, dims=('n',), args=[V_, Z_, C_, Q_, Param('A', (2, 'n'), gen=gen_full)], sym=False, deduce=False, tol=1e-5, grid=[2], num=[3, 6], samples=6,
             targets=('opt.projectors',)))


# ================================================================== C13 proximal operators
add = CONTRACTS['C13'].append
TT = Param('t', (), pos=True)
QQ = Param('q', (), pos=True)
QV = Param('q', ('n',), pos=True)


def pair(c, op, x, t):
    """the combined form returns the proximal vector and the function value at it"""
    p, v = op.prox_vec_val(x, t)
    p1 = op.prox_op(x, t)
    c.eq('prox_vec_val: vector', p, p1)
    c.eq('prox_vec_val: value', v, op.func(p1))
    c.shape('prox', p1, x.shape)
    return p1


def f_prox_l1(c, d, x, t, q):
    if c.mode == 'trace':
        c.assume(x != 0)
    op = opt.prox_l1(q)
    c.eq('value', op.func(x), jnp.sum(jnp.abs(q * x)))
    p = pair(c, op, x, t)
    e = 0. if c.mode == 'trace' else 1e-9 * (1 + jnp.abs(x))
    k = t * q
    # x - p is t times a subgradient of q|.| at p
    c.true('optimality', jnp.logical_and(jnp.abs(x - p) <= k + e, jnp.logical_or(jnp.abs(p) <= e, jnp.logical_and(jnp.abs(jnp.abs(x - p) - k) <= e, (x - p) * p >= 0))))
    c.eq('soft thresholding', p, jnp.where(x > k, x - k, jnp.where(x < -k, x + k, 0.)))
    c.eq('shrink', opt.shrink(x, k), jnp.where(x > k, x - k, jnp.where(x < -k, x + k, 0.)))


for nm, Q in (('', QQ), (' weighted', QV)):
    add(Contract('l1' + nm, f_prox_l1, args=[V_, TT, Q], targets=('opt.prox_l1', 'opt.shrink'), **kw1))


def f_prox_l1c(c, d, x, t, q):
    ax = jnp.abs(x)
    if c.mode == 'trace':
        c.assume(ax > 0)
    op = opt.prox_l1(q)
    p = op.prox_op(x, t)
    c.eq('value', op.func(x), jnp.sum(jnp.abs(q * x)))
    c.eq('magnitudes are soft thresholded, phases kept', p * ax, x * jnp.maximum(ax - t * q, 0))


add(Contract('l1 complex', f_prox_l1c, args=[VC, TT, QQ], targets=('opt.prox_l1',), **kw1))


def f_prox_l2(c, d, x, t, q):
    N = nrm(x)
    if c.mode == 'trace':
        c.assume(n2(x) > 0)
    op = opt.prox_l2(q)
    c.eq('value', op.func(x), q * N)
    p = pair(c, op, x, t)
    c.eq('shrinks the norm', p * N, x * jnp.maximum(N - t * q, 0))


add(Contract('l2', f_prox_l2, args=[V_, TT, QQ], targets=('opt.prox_l2',), **kw1))


def f_prox_l1pos(c, d, x, t, q):
    op = opt.prox_l1_pos(q)
    c.eq('value', op.func(x), jnp.where(jnp.any(x < 0), jnp.inf, jnp.sum(jnp.abs(q * x))))
    p, v = op.prox_vec_val(x, t)
    c.eq('vector', op.prox_op(x, t), jnp.where(x > t * q, x - t * q, 0.))
    c.eq('combined: vector', p, op.prox_op(x, t))
    c.eq('combined: value', v, jnp.sum(q * jnp.where(x > t * q, x - t * q, 0.)))


for nm, Q in (('', QQ), (' weighted', QV)):
    add(Contract('l1_pos' + nm, f_prox_l1pos, args=[V_, TT, Q], targets=('opt.prox_l1_pos',), **kw1))


def f_prox_zero(c, d, x, t):
    op = opt.prox_zero()
    c.eq('value', op.func(x), 0.)
    p, v = op.prox_vec_val(x, t)
    c.eq('vector', op.prox_op(x, t), x)
    c.eq('combined: vector', p, x)
    c.eq('combined: value', v, 0.)


add(Contract('zero function', f_prox_zero, args=[V_, TT], targets=('opt.prox_zero',), **kw1))


def f_prox_l1ball(c, d, x, q, t):
    op = opt.prox_l1_ball(q)
    c.eq('value is the indicator', op.func(x), jnp.where(l1(x) <= q, 0., jnp.inf))
    p, v = op.prox_vec_val(x, t)
    c.eq('value at the projection', v, 0.)
    p1 = op.prox_op(x, t)
    c.eq('combined: vector', p, p1)
    l1_posts(c, x, p1, q, l1(x) <= q)


add(Contract('l1 ball', f_prox_l1ball, args=[XS, QS, TT], targets=('opt.prox_l1_ball',), **{**kwl, 'grid': [1, 2]}))


def f_build(c, d, x, t, b, g):
    """for an arbitrary set and function (uninterpreted)"""
    func = lambda v: jnp.sum(jnp.exp(v))
    prox = lambda v, s: jnp.sin(v) * s
    op = opt.prox_build(func, prox)
    p, v = op.prox_vec_val(x, t)
    c.eq('build: value', op.func(x), func(x))
    c.eq('build: prox', op.prox_op(x, t), prox(x, t))
    c.eq('build: combined vector', p, prox(x, t))
    c.eq('build: combined value', v, func(prox(x, t)))
    ev = opt.prox_value_vec(func, prox)
    c.eq('evaluator: value', ev(x, t), func(x))
    c.eq('evaluator: prox', ev(x, t, 1), prox(x, t))
    v, p = ev(x, t, 2)
    c.eq('evaluator: both, value', v, func(prox(x, t)))
    c.eq('evaluator: both, vector', p, prox(x, t))
    ind = opt.indicator_box(b, b + g)
    op = opt.build_from_ind_proj(ind, opt.proj_box(b, b + g))
    c.eq('set: value is the indicator', op.func(x), ind(x))
    pr = jnp.minimum(jnp.maximum(x, b), b + g)
    c.eq('set: prox is the projection', op.prox_op(x, t), pr)
    p, v = op.prox_vec_val(x, t)
    c.eq('set: combined vector', p, pr)
    c.eq('set: combined value', v, 0.)


add(Contract('constructors', f_build, args=[V_, TT, C_, G_], targets=('opt.prox_build', 'opt.prox_value_vec', 'opt.build_from_ind_proj'), **kw1))


# ------------------------------------------------------------------ Moreau envelopes
def f_moreau(c, d, x, mu, q):
    if c.mode == 'trace':
        c.assume(x != 0)
    f = opt.prox_l1(q)
    M = opt.moreau_envelope(f, mu)
    k = mu * q
    p = x * (1 - jnp.minimum(k / jnp.abs(x), 1)) if c.mode == 'trace' else jnp.where(x > k, x - k, jnp.where(x < -k, x + k, 0.))
    val = jnp.sum(jnp.abs(q * p)) + n2(x - p) / (2 * mu)
    c.eq('value is the minimum of f(z) + |x - z|^2 / (2 mu)', M.func(x), val)
    c.eq('gradient', M.grad(x), (x - p) / mu)
    g, v = M.grad_val(x)
    c.eq('combined: gradient', g, (x - p) / mu)
    c.eq('combined: value', v, val)


def f_moreau2(c, d, x, mu):
    """any prox-capable function (uninterpreted value and proximal map)"""
    func = lambda v: jnp.sum(jnp.exp(v))
    prox = lambda v, s: jnp.sin(v) * s
    M = opt.moreau_envelope(opt.prox_build(func, prox), mu)
    p = prox(x, mu)
    val = func(p) + n2(x - p) / (2 * mu)
    c.eq('value', M.func(x), val)
    c.eq('gradient', M.grad(x), (x - p) / mu)
    g, v = M.grad_val(x)
    c.eq('combined: gradient', g, (x - p) / mu)
    c.eq('combined: value', v, val)


def f_moreau_run(c, d, x, z, mu, q):
    for nm, f in (('l1', opt.prox_l1(q)), ('l2', opt.prox_l2(q)), ('zero', opt.prox_zero()), ('owl1', opt.prox_owl1(jnp.linspace(2, 1, x.shape[0])))):
        M = opt.moreau_envelope(f, mu)
        v = M.func(x)
        c.le(nm + ': below f', v, f.func(x) + 1e-9)
        c.le(nm + ': below every f(z) + |x - z|^2 / (2 mu)', v, f.func(z) + n2(x - z) / (2 * mu) + 1e-9)
        h = jnp.cos(jnp.arange(1., x.shape[0] + 1))
        e = 1e-5
        c.true(nm + ': the gradient is the derivative of the value', jnp.abs((M.func(x + e * h) - M.func(x - e * h)) / (2 * e) - M.grad(x) @ h) <= 1e-4 * (1 + nrm(M.grad(x))) + 2 * e * n2(h) / mu)


add(Contract('Moreau envelope of l1', f_moreau, args=[V_, Param('mu', (), pos=True), QQ], targets=('opt.moreau_envelope',), **kw1))
add(Contract('Moreau envelope', f_moreau2, args=[V_, Param('mu', (), pos=True)], targets=('opt.moreau_envelope',), **kw1))
add(Contract('Moreau envelope is the infimum', f_moreau_run, dims=('n',), args=[V_, Z_, Param('mu', (), pos=True), QQ], sym=False, deduce=False, grid=[2], num=[3, 5], samples=6, targets=('opt.moreau_envelope',)))


# ------------------------------------------------------------------ ordered weighted l1 norm
def gen_lam(rng, shape, style, env):
    v = np.sort(np.abs(rng.standard_normal(shape)) + 0.05)[::-1]
    return np.ones(shape) if style == 'ones' else (np.round(v * 3) + 1 if style == 'int' else v)


def f_owl_val(c, d, x, lam):
    n = x.shape[0]
    v = opt.prox_owl1(lam).func(x)
    for i in range(n - 1):
        c.assume(lam[i] >= lam[i + 1])
    # the sorted pairing is the largest of all pairings
    al = [sum(lam[i] * jnp.abs(x[s[i]]) for i in range(n)) for s in itertools.permutations(range(n))]
    m = al[0]
    for a in al[1:]:
        m = jnp.maximum(m, a)
    c.eq('value', v, m)


def f_owl(c, d, x, t, lam):
    with loops.counted(4 * x.shape[0] + 20):
        opt.prox_owl1(lam).prox_op(x, t)
    op = opt.prox_owl1(lam)
    p = np.asarray(pair(c, op, x, t))
    xs = np.asarray(x)
    o = np.argsort(-np.abs(xs), kind='stable')
    w = np.abs(xs)[o] - float(t) * np.asarray(lam)
    blocks = []                      # pool adjacent violators
    for v in w:
        blocks.append([v, 1])
        while len(blocks) > 1 and blocks[-2][0] < blocks[-1][0]:
            a, b = blocks.pop(), blocks.pop()
            blocks.append([(a[0] * a[1] + b[0] * b[1]) / (a[1] + b[1]), a[1] + b[1]])
    ref = np.zeros_like(xs)
    ref[o] = np.maximum(np.concatenate([[v] * k for v, k in blocks]), 0)
    c.eq('proximal vector', p, ref * np.sign(xs))
    y = opt.prox_owl1(lam).prox_op(x.reshape(1, -1), t)
    c.eq('any shape', y.ravel(), p)


LAM = Param('lam', ('n',), pos=True, gen=gen_lam)
add(Contract('ordered l1 value', f_owl_val, dims=('n',), args=[V_, LAM], sym=False, grid=[1, 2], num=[3, 4], samples=6, targets=('opt.prox_owl1',), timeout=20000))
add(Contract('ordered l1 prox', f_owl, dims=('n',), args=[XS, TT, LAM], sym=False, deduce=False, grid=[1, 2, 3], num=[4, 7, 12], samples=8, targets=('opt.prox_owl1',)))


# ------------------------------------------------------------------ proximal inequality for every function
def f_proxineq(c, d, x, z, t, q):
    n = x.shape[0]
    lam = jnp.linspace(2., 0.5, n) * q
    for nm, op in (('l1', opt.prox_l1(q)), ('l1 weighted', opt.prox_l1(lam)), ('l2', opt.prox_l2(q)), ('l1_pos', opt.prox_l1_pos(q)), ('owl1', opt.prox_owl1(lam)), ('zero', opt.prox_zero()),
                   ('l1 ball', opt.prox_l1_ball(float(q)))):
        p = op.prox_op(x, t)
        for w in (z, 0.3 * z, 0 * z, jnp.abs(z), p + 0.01 * z, p * 0.9):
            fw, fp = op.func(w), op.prox_vec_val(x, t)[1]
            if np.isfinite(float(fw)):
                c.le(nm + ': no point has a smaller objective', fp + n2(p - x) / (2 * t), fw + n2(w - x) / (2 * t) - n2(w - p) / (2 * t) + 1e-7)
    for nm, op in (('l1', opt.prox_l1(q)), ('l2', opt.prox_l2(q)), ('l1_pos', opt.prox_l1_pos(q))):
        c.eq(nm + ': zero stays', op.prox_op(jnp.zeros(n), t), jnp.zeros(n))


add(Contract('proximal inequality', f_proxineq, dims=('n',), args=[V_, Z_, TT, QQ], sym=False, deduce=False, grid=[1, 3], num=[2, 6], samples=6, targets=('opt.proximal_ops',)))


# ================================================================== C14 smooth functions
add = CONTRACTS['C14'].append
H_ = Param('h', ('n',))


def smooth_posts(c, op, x, h, value, grad, deriv=True, like=None):
    c.eq('value', op.func(x), value)
    g = op.grad(x)
    c.shape('gradient', g, x.shape)
    c.eq('gradient formula', g, grad)
    g2, v2 = op.grad_val(x)
    c.eq('combined: gradient', g2, grad)
    c.eq('combined: value', v2, value)
    if deriv:
        # the derivative of the very function the code evaluates
        dv = jax.jvp(op.func, (x,), (h,))[1]
        c.eq('the gradient is the derivative of the value', jnp.sum(g * h), dv)


def f_const(c, d, x, h, s):
    smooth_posts(c, opt.smooth_constant(s), x, h, s, jnp.zeros_like(x))
    c.eq('default', opt.smooth_constant().func(x), 0.)


def f_lin(c, d, x, h, C, s):
    smooth_posts(c, opt.smooth_linear(C, s), x, h, jnp.sum(C * x) + s, C)
    c.eq('default offset', opt.smooth_linear(C).func(x), jnp.sum(C * x))


def f_quadm(which):
    def fn(c, d, x, h, S, q, r):
        P = (S + S.T) / 2
        kw = {}
        v, g = 0.5 * jnp.sum(x * x), x
        if 'P' in which:
            kw['P'] = P
            v, g = 0.5 * x @ (P @ x), P @ x
        if 'q' in which:
            kw['q'] = q
            v, g = v + jnp.sum(q * x), g + q
        if 'r' in which:
            kw['r'] = r
            v = v + r
        smooth_posts(c, opt.smooth_quad_matrix(**kw), x, h, v, g)
    return fn


def f_quade(c, d, x, h, A, b):
    r = A @ x - b
    smooth_posts(c, opt.smooth_quad_error(A, b), x, h, 0.5 * jnp.sum(r * r), A.T @ r)


def f_huber(deriv):
    def fn(c, d, x, h, tau):
        ax = jnp.abs(x)
        v = jnp.sum(jnp.where(ax <= tau, ax ** 2 / (2 * tau), ax - tau / 2))
        g = jnp.where(ax <= tau, x / tau, jnp.sign(x))
        if c.mode == 'trace':
            c.assume(x != 0)      # |x| as the code writes it has no derivative rule at 0
        smooth_posts(c, opt.smooth_huber(tau), x, h, v, g, deriv=deriv or c.mode == 'run')
    return fn


def f_entropy(vg):
    def fn(c, d, x, h):
        op = opt.smooth_entropy_vg() if vg else opt.smooth_entropy()
        if c.mode == 'trace':
            c.assume(x > 1e-12)
        smooth_posts(c, op, x, h, -jnp.sum(x * jnp.log(x)), -jnp.log(x) - 1)
    return fn


def f_entropy_out(c, d, x):
    for op in (opt.smooth_entropy(), opt.smooth_entropy_vg()):
        y = x.at[0].set(-jnp.abs(x[0]) - 0.1)
        c.static('outside the domain', float(op.func(y)) == -np.inf and np.isnan(np.asarray(op.grad(y))).all())
        g, v = op.grad_val(y)
        c.static('outside the domain: combined', float(v) == -np.inf and np.isnan(np.asarray(g)).all())
        z = jnp.abs(x).at[0].set(0.)
        c.eq('zero entries contribute nothing', op.func(z), -jnp.sum(jnp.where(z > 0, z * jnp.log(jnp.where(z > 0, z, 1)), 0.)))


def f_translate(c, d, x, h, b):
    f = opt.smooth_build(lambda v: jnp.sum(jnp.exp(v)) * jnp.sum(jnp.sin(v)))
    y = x + b
    smooth_posts(c, opt.smooth_func_translate(f, b), x, h, jnp.sum(jnp.exp(y)) * jnp.sum(jnp.sin(y)),
                 jnp.exp(y) * jnp.sum(jnp.sin(y)) + jnp.sum(jnp.exp(y)) * jnp.cos(y))


def f_sbuild(c, d, x, h):
    func = lambda v: jnp.sum(jnp.exp(v) * v)
    grad = lambda v: jnp.exp(v) * v + jnp.exp(v)
    gv = lambda v: (grad(v), func(v))
    for nm, op in (('build', opt.smooth_build(func)), ('build2', opt.smooth_build2(func, grad)), ('build3', opt.smooth_build3(func, grad, gv))):
        c.eq(nm + ': value', op.func(x), func(x))
        c.eq(nm + ': gradient', op.grad(x), grad(x))
        g, v = op.grad_val(x)
        c.eq(nm + ': combined gradient', g, grad(x))
        c.eq(nm + ': combined value', v, func(x))
    g, v = opt.build_grad_val_func(func, grad)(x)
    c.eq('build_grad_val_func: gradient', g, grad(x))
    c.eq('build_grad_val_func: value', v, func(x))
    ev = opt.smooth_value_grad(func, grad)
    c.eq('evaluator: value', ev(x), func(x))
    c.eq('evaluator: gradient', ev(x, 1), grad(x))
    v, g = ev(x, 2)
    c.eq('evaluator: both, value', v, func(x))
    c.eq('evaluator: both, gradient', g, grad(x))


def f_logdet(c, d, S, C, q):
    n = S.shape[0]
    Xm = S @ S.T + 0.5 * jnp.eye(n)
    base = -q * jnp.linalg.slogdet(Xm)[1]
    for nm, op, v, g in (('log det', opt.smooth_logdet(q), base, -q * jnp.linalg.inv(Xm)), ('log det with linear term', opt.smooth_logdet(q, C), base + jnp.sum(C * Xm), -q * jnp.linalg.inv(Xm) + C)):
        c.eq(nm + ': value', op.func(Xm), v)
        c.eq(nm + ': gradient', op.grad(Xm), g)
        g2, v2 = op.grad_val(Xm)
        c.eq(nm + ': combined gradient', g2, g)
        c.eq(nm + ': combined value', v2, v)
    c.eq('default scale', opt.smooth_logdet().func(Xm), -jnp.linalg.slogdet(Xm)[1])


add(Contract('constant', f_const, args=[V_, H_, Param('s')], targets=('opt.smooth_constant',), **kw1))
add(Contract('linear', f_lin, args=[V_, H_, C_, Param('s')], targets=('opt.smooth_linear',), **kw1))
for which in ('', 'P', 'q', 'r', 'Pq', 'Pr', 'qr', 'Pqr'):
    add(Contract('quadratic[%s]' % which, f_quadm(which), args=[V_, H_, Param('S', ('n', 'n')), Param('q', ('n',)), Param('r')], targets=('opt.smooth_quad_matrix',), **{**kw1, 'samples': 4}))
add(Contract('quadratic error', f_quade, args=[V_, H_, AMN, BM], targets=('opt.smooth_quad_error',), **kw2))
add(Contract('huber', f_huber(False), args=[V_, H_, Param('tau', (), pos=True)], targets=('opt.smooth_huber',), **{**kw1, 'sym': False}))
add(Contract('huber derivative', f_huber(True), args=[V_, H_, Param('tau', (), pos=True)], targets=('opt.smooth_huber',), **{**kw1, 'sym': False, 'grid': [1]}))
for vg in (False, True):
    add(Contract('entropy' + ('_vg' if vg else ''), f_entropy(vg), args=[Param('x', ('n',), pos=True), H_], targets=('opt.smooth_entropy' + ('_vg' if vg else ''),), **kw1))
add(Contract('entropy at the border', f_entropy_out, dims=('n',), args=[V_], sym=False, deduce=False, grid=[1, 2], num=[3, 5], samples=5, targets=('opt.smooth_entropy', 'opt.smooth_entropy_vg')))
add(Contract('translation', f_translate, args=[V_, H_, C_], targets=('opt.smooth_func_translate',), **kw1))
add(Contract('constructors', f_sbuild, args=[V_, H_], targets=('opt.smooth_build', 'opt.smooth_build2', 'opt.smooth_build3', 'opt.smooth_value_grad'), **kw1))
add(Contract('log det', f_logdet, dims=('n',), args=[Param('S', ('n', 'n')), Param('C', ('n', 'n')), QQ], sym=False, deduce=False, grid=[1, 2, 3], num=[4, 6], samples=6, targets=('opt.smooth_logdet',)))


# ------------------------------------------------------------------ integer arrays and lists stand for the real vectors they hold
def int_forms(prop, name, table):
    """every function of the table gives for lists and integer arrays what it gives for the same reals"""
    cache = {}

    def fn(c, d, xi, t):
        xs = [int(v) for v in np.asarray(xi)]
        for nm, mk in table.items():
            f = cache.setdefault((nm, d['n']), mk(d['n']))
            ref = f(jnp.asarray(xs, dtype=float), float(t) + 1)
            for form, v in (('list', xs), ('integer array', jnp.asarray(xs)), ('NumPy array', np.asarray(xs))):
                got = f(v, float(t) + 1)
                for i, (a, b) in enumerate(zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(ref))):
                    c.eq('%s of a %s, part %d' % (nm, form, i), a, b)
    CONTRACTS[prop].append(Contract(name, fn, dims=('n',), args=[Param('xi', ('n',), 'i', lo=-6, hi=7), Param('t', (), 'i', lo=0, hi=3)], sym=False, deduce=False, grid=[3], num=[3], samples=4))


I_PROJ = {
    'proj_zero': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_zero()), 'proj_identity': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_identity()),
    'proj_singleton': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_singleton([2] * n)), 'proj_affine': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_affine([[1] * n], [2])),
    'proj_affine, b=0': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_affine([[1] * n])),
    'proj_box': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_box([-1] * n, [2] * n)), 'proj_box, lower': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_box(l=[-1] * n)), 'proj_box, upper': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_box(u=1)),
    'proj_l2_ball': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_l2_ball(2)), 'proj_l2_ball, b': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_l2_ball(2, [1] * n)), 'proj_l1_ball': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_l1_ball(2)),
    'proj_l1_ball, b': lambda n: (lambda f: lambda x, t: f(x))(opt.proj_l1_ball(2, [1] * n)),
    'indicator_zero': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_zero()), 'indicator_singleton': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_singleton([2] * n)), 'indicator_affine': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_affine([[1] * n], [2])),
    'indicator_box': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_box([-1] * n, [2] * n)), 'indicator_box, lower': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_box(l=[-1] * n)), 'indicator_box, upper': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_box(u=1)),
    'indicator_l2_ball': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_l2_ball(2)), 'indicator_l2_ball, b': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_l2_ball(2, [1] * n)), 'indicator_l1_ball': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_l1_ball(2)),
    'indicator_l1_ball, b': lambda n: (lambda f: lambda x, t: f(x))(opt.indicator_l1_ball(2, [1] * n)),
}
I_PROX = {'%s, %s' % (nm, w): (lambda n, mk=mk, w=w: (lambda g: lambda x, t: g(*((x,) if w == 'func' else (x, t))))(getattr(mk(n), w)))
          for w in ('func', 'prox_op', 'prox_vec_val')
          for nm, mk in {'prox_zero': lambda n: opt.prox_zero(), 'prox_l1': lambda n: opt.prox_l1(2), 'prox_l1, weights': lambda n: opt.prox_l1([2] * n), 'prox_l2': lambda n: opt.prox_l2(2), 'prox_l1_pos': lambda n: opt.prox_l1_pos(2),
                         'prox_l1_ball': lambda n: opt.prox_l1_ball(2), 'prox_owl1': lambda n: opt.prox_owl1(list(range(n, 0, -1)))}.items()}
I_SMOOTH = {'%s, %s' % (nm, w): (lambda n, mk=mk, w=w: (lambda g: lambda x, t: g(x))(getattr(mk(n), w)))
            for w in ('func', 'grad', 'grad_val')
            for nm, mk in {'constant': lambda n: opt.smooth_constant(3), 'linear': lambda n: opt.smooth_linear([2] * n), 'quad': lambda n: opt.smooth_quad_matrix(), 'quad, P q r': lambda n: opt.smooth_quad_matrix(np.eye(n, dtype=int), np.ones(n, dtype=int), 2),
                           'quad error': lambda n: opt.smooth_quad_error(np.array([[1] * n, [2] * n]), np.array([1, 3])), 'huber': lambda n: opt.smooth_huber(2),
                           'translated': lambda n: opt.smooth_func_translate(opt.smooth_huber(2), [1] * n)}.items()}
int_forms('C12', 'integer points', I_PROJ)
int_forms('C13', 'integer points', I_PROX)
int_forms('C14', 'integer points', I_SMOOTH)
