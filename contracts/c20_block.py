"""C20: block sparse Bayesian learning (BSBL-EM, BSBL-BO) and 1-bit compressive sensing (BIHT, RFP)"""
import contextlib
import io
import jax
import jax.numpy as jnp
import numpy as np
import cr.nimble as crn
from cr.sparse._src.block import bsbl
from cr.sparse._src.block import util as butil
from cr.sparse._src.cs.cs1bit import biht as mbiht, rfp as mrfp, util as mutil
from vf.contract import Contract, Param
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_int

from contracts.c10_linear import is_state, n2

X = {}
CONTRACTS = {'C20': []}


def add(name, fn, **kw):
    CONTRACTS['C20'].append(Contract(name, fn, **kw))


# ------------------------------------------------------------------ assumed contracts of the linear algebra
def any_solve(A, B):
    """linalg.solve: some H with A H = B (A invertible)"""
    H = havoc(B, 'H')
    X['sol'] = (A, B, H)
    return H


def any_inv(B):
    V = havoc(B, 'Binv')
    X['inv'] = (B, V)
    return V


def any_root(B):
    R = havoc(B, 'root')
    X['root'] = (B, R)
    return R


DIAG = (jnp, 'diag_indices', lambda n, ndim=2: (jnp.arange(n),) * ndim)


def diag_blocks(A, b):
    """cr.nimble.block_diag: the b x b blocks on the diagonal"""
    nb = A.shape[0] // b
    i = jnp.arange(nb)
    return A.reshape((nb, b, nb, b))[i, :, i, :]


LIBS = [DIAG, (crn, 'block_diag', diag_blocks), (jnp.linalg, 'solve', any_solve), (jnp.linalg, 'inv', any_inv), (bsbl, 'sqrtm_svd', any_root)]


def blocks(Phi, nb, b):
    return jnp.transpose(Phi.reshape((Phi.shape[0], nb, b)), (1, 0, 2))


def gen_pd(rng, shape, style, env):
    """positive definite blocks"""
    R = rng.standard_normal(shape) * 0.4
    return R @ np.swapaxes(R, -1, -2) + np.eye(shape[-1]) * 0.3


def gen_gam(rng, shape, style, env):
    g = rng.uniform(0.2, 2, shape)
    return g


ACT = Param('act', ('nb',), 'i', lo=0, hi=2)


def f_subdicts(b):
    def fn(c, d, Phi):
        nb, m = d['nb'], d['m']
        Phi = Phi.reshape((m, nb * b)) if len(Phi.shape) == 3 else Phi
        S = bsbl.get_subdicts(Phi, nb)
        c.shape('sub-dictionaries', S, (nb, m, b))
        c.eq('block i holds columns i b .. i b + b - 1', S, blocks(Phi, nb, b))
    return fn


def f_parts(b):
    """the pieces of an iteration, each against its formula"""
    def fn(c, d, Phi3, S, Cv, mu, gam, act, y, lam, rn):
        m, nb = d['m'], d['nb']
        Phi = Phi3.reshape((m, nb * b))
        D = blocks(Phi, nb, b)
        on = act > 0
        a2, a1 = on[:, None], on[:, None, None]
        quad = jnp.einsum('imj,ijk,ink->imn', D, S, D)
        c.eq('measurement covariance', bsbl.cum_phi_b_phi(D, S), jnp.sum(quad, axis=0))
        c.eq('measurement covariance of active blocks', bsbl.cum_phi_b_phi_pruned(D, S, on), jnp.sum(jnp.where(a1, quad, 0.), axis=0))
        if c.mode == 'run':
            c.eq('measurement covariance, reference form', bsbl.cum_phi_b_phi_ref(Phi, S), jnp.sum(quad, axis=0))
        P = jnp.sum(quad, axis=0)
        H = bsbl.compute_h(Phi, P, lam)
        c.shape('H', H, (nb * b, m))
        if c.mode == 'trace':
            A, rhs, HT = X['sol']
            c.eq('system of H', A, P + lam * jnp.eye(m))
            c.eq('right hand side of H', rhs, Phi)
            c.eq('H is the transposed solution', H, HT.T)
        else:
            c.eq('H = Phi^T (P + lambda I)^-1', H @ (P + lam * jnp.eye(m)), Phi.T)
        Hb = blocks(H.T, nb, b)          # nb, m, b
        hy = jnp.einsum('imj,m->ij', Hb, y)
        M = jnp.einsum('ijk,ik->ij', S, hy)
        for nm, (mx, Hy), ref in (('', bsbl.compute_mu_x(S, H, y), M), (' of active blocks', bsbl.compute_mu_x_pruned(S, H, y, on), jnp.where(a2, M, 0.))):
            c.eq('mean' + nm, mx, ref)
            c.eq('H y by blocks' + nm, Hy, hy)
        K = jnp.einsum('imj,imk->ijk', Hb, D)
        Sx = S - S @ K @ S if c.mode == 'run' else S - jnp.einsum('ijk,ikl,ilp->ijp', S, K, S)
        for nm, (sx, HP), ref in (('', bsbl.compute_sigma_x(Phi, S, H), Sx), (' of active blocks', bsbl.compute_sigma_x_pruned(Phi, S, H, on), jnp.where(a1, Sx, 0.))):
            c.eq('posterior covariance' + nm, sx, ref)
            c.eq('diagonal blocks of H Phi' + nm, HP, K)
        c.eq('second moment', bsbl.compute_cov_x(S, mu), S + mu[:, :, None] * mu[:, None, :])
        c.eq('sum of scaled moments', bsbl.compute_cov_x_sum(Cv, gam), jnp.sum(Cv / gam[:, None, None], axis=0))
        c.eq('sum of scaled moments of active blocks', bsbl.compute_cov_x_sum_pruned(jnp.where(a1, Cv, 0.), gam, on), jnp.sum(jnp.where(a1, Cv / gam[:, None, None], 0.), axis=0))
        Bi = S[0]
        tr = jnp.einsum('jk,ikj->i', Bi, Cv)
        c.eq('EM update of gamma', bsbl.update_gammas_em(Cv, Bi) * b, tr)
        c.eq('EM update of gamma, pruned', bsbl.update_gammas_em_pruned(Cv, Bi, on) * b, jnp.where(on, tr, 0.))
        c.eq('prior covariances', bsbl.update_sigma_0(gam, Bi), gam[:, None, None] * Bi[None])
        low = rn + jnp.sum(jnp.einsum('imj,ijk,imk->i', D, S, D))
        c.eq('lambda, low SNR', bsbl.update_lambda_low_snr(lam, D, S, rn, m) * m, low)
        hi = rn + lam * (nb * b - jnp.sum(jnp.einsum('ijk,kj->i', S, Bi) / gam))
        c.eq('lambda, high SNR', bsbl.update_lambda_high_snr(lam, gam, S, Bi, rn, m) * m, hi)
        if c.mode == 'run':
            for ll, ref in ((0, lam * m), (1, low), (2, hi)):
                c.eq('lambda rule %d' % ll, bsbl.update_lambda_rule_nojit(ll, lam, D, gam, S, Bi, rn, m) * m, ref)
                c.eq('compiled lambda rule %d' % ll, bsbl.update_lambda_rule_jittable(ll, lam, D, gam, S, Bi, rn, m) * m, ref)
            q = jnp.einsum('ij,jk,ik->i', hy, Bi, hy)
            t = jnp.einsum('ijk,kj->i', K, Bi)
            g = gam * jnp.sqrt(q) / jnp.sqrt(t)
            c.eq('BO update of gamma', bsbl.update_gammas_bo(gam, Bi, hy, K), g)
            c.eq('BO update of gamma, pruned', bsbl.update_gammas_bo_pruned(gam, Bi, hy, K, on), jnp.where(on, g, 0.))
            R = bsbl.sqrtm_svd(Bi)
            c.eq('matrix square root', R @ R, Bi)
            c.true('symmetric square root', jnp.abs(R - R.T) < 1e-9)
        elif c.mode == 'trace':
            g = bsbl.update_gammas_bo(gam, Bi, hy, K)
            R = X['root'][1]
            c.eq('square root of the correlation matrix', X['root'][0], Bi)
            q = jnp.sum(jnp.einsum('jk,ik->ij', R, hy) ** 2, axis=1)
            t = jnp.einsum('ijk,kj->i', K, Bi)
            c.eq('BO update of gamma', g, gam * jnp.sqrt(q) / jnp.sqrt(t))
    return fn


LAM = Param('lam', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 1))
RN = Param('rn', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 1))
for b in (1, 2, 3):
    PB = Param('Phi', ('m', 'nb', b))
    kw = dict(dims=('m', 'nb'), hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['nb'], 2)], light=True)
    add('sub-dictionaries b=%d' % b, f_subdicts(b), args=[PB], grid=[(2, 2), (1, 3)], num=[(3, 4), (4, 1)], **kw)
    add('pieces of an iteration b=%d' % b, f_parts(b), args=[PB, Param('S', ('nb', b, b), gen=gen_pd), Param('Cv', ('nb', b, b), gen=gen_pd), Param('mu', ('nb', b)), Param('gam', ('nb',), pos=True, gen=gen_gam), ACT,
                                                             Param('y', ('m',)), LAM, RN], grid=[(2, 2)], num=[(3, 4), (4, 2), (5, 3)], libs=LIBS, styles=('normal', 'int'), samples=3, **kw)


def f_toep(b):
    def fn(c, d, B0):
        B, V = bsbl.compute_B_B_inv(B0)
        m0 = jnp.mean(jnp.diagonal(B0))
        m1 = jnp.mean(jnp.diagonal(B0, 1)) if b > 1 else jnp.zeros(())
        r = jnp.minimum(jnp.maximum(m1 / m0, -0.99), 0.99)
        p = [jnp.ones(())]
        for _ in range(b - 1):
            p.append(p[-1] * r)
        c.eq('correlation of an AR(1) process', B, jnp.stack([jnp.stack([p[abs(i - j)] for j in range(b)]) for i in range(b)]))
        if c.mode == 'trace':
            c.eq('inverse of B', X['inv'][0], B)
            c.eq('inverse returned', X['inv'][1], V)
        else:
            c.true('inverse of B', jnp.abs(B @ V - jnp.eye(b)) < 1e-9)
    return fn


for b in (1, 2, 3, 4):
    add('AR(1) correlation matrix b=%d' % b, f_toep(b), args=[Param('B0', (b, b), gen=gen_pd)], num=[{}], libs=LIBS, hyps=None, samples=6, styles=('normal', 'int', 'big'))


# ------------------------------------------------------------------ the iterations
def bs_gen(h, init):
    mu = havoc(init.mu_x, 'mu')
    r = X['y'] - X['Phi'] @ mu.reshape((mu.shape[0] * X['b'],))
    return init._replace(mu_x=mu, r=r, r_norm_sqr=n2(r), gammas=havoc(init.gammas, 'gammas'), Sigma0=havoc(init.Sigma0, 'Sigma0'), lambda_val=havoc(jnp.asarray(1.), 'lambda'), dmu=havoc(jnp.asarray(1.), 'dmu'),
                         iterations=havoc_int(0, 'iterations'))


def bs_check(a, s, init):
    nb, b = s.mu_x.shape[0], X['b']
    r = X['y'] - X['Phi'] @ s.mu_x.reshape((nb * b,))
    a.eq('r = y - Phi x', s.r, r)
    a.eq('r_norm_sqr = |r|^2', s.r_norm_sqr, n2(r))
    a.true('iterations within the limit', s.iterations <= jnp.maximum(X['maxit'], 0))
    if s is init:
        a.eq('starts from zero', s.mu_x, jnp.zeros_like(s.mu_x))
        a.eq('unit variances', s.gammas, jnp.ones_like(s.gammas))
        a.eq('identity prior covariances', s.Sigma0, jnp.broadcast_to(jnp.eye(b), s.Sigma0.shape))
        a.eq('noise variance of the options', s.lambda_val, X['lam'])


def bs_step(a, s, s2, init):
    b, Phi, y, kind = X['b'], X['Phi'], X['y'], X['kind']
    m, nb = Phi.shape[0], s.mu_x.shape[0]
    D = blocks(Phi, nb, b)
    on = s.gammas > X['prune'] if kind != 'np' else None
    zero = (lambda v: jnp.where(on.reshape((nb,) + (1,) * (len(v.shape) - 1)), v, 0.)) if kind != 'np' else (lambda v: v)
    A, rhs, HT = X['sol']
    P = jnp.sum(zero(jnp.einsum('imj,ijk,ink->imn', D, s.Sigma0, D)), axis=0)
    a.eq('measurement covariance plus noise', A, P + s.lambda_val * jnp.eye(m))
    a.eq('solved for the dictionary', rhs, Phi)
    Hb = blocks(HT, nb, b)
    hy = jnp.einsum('imj,m->ij', Hb, y)
    a.eq('posterior mean', s2.mu_x, zero(jnp.einsum('ijk,ik->ij', s.Sigma0, hy)))
    K = jnp.einsum('imj,imk->ijk', Hb, D)
    Sx = zero(s.Sigma0 - jnp.einsum('ijk,ikl,ilp->ijp', s.Sigma0, K, s.Sigma0))
    Cv = Sx + s2.mu_x[:, :, None] * s2.mu_x[:, None, :]
    Bs = jnp.sum(zero(Cv / s.gammas[:, None, None]), axis=0)
    Bm, V = X['inv']
    if X['corr']:
        dg = [Bs[i, i] for i in range(b)]
        od = [Bs[i, i + 1] for i in range(b - 1)]
        r = jnp.clip((sum(od) / (b - 1)) / (sum(dg) / b), -0.99, 0.99)
        p = [jnp.ones(())]
        for _ in range(b - 1):
            p.append(p[-1] * r)
        a.eq('AR(1) model of the intra block correlation', Bm, jnp.stack([jnp.stack([p[abs(i - j)] for j in range(b)]) for i in range(b)]))
    else:
        a.eq('no intra block correlation', Bm, jnp.eye(b))
    if X['ll'] == 0:
        a.eq('noise variance kept', s2.lambda_val, s.lambda_val)
    elif X['ll'] == 1:
        a.eq('noise variance, low SNR rule', s2.lambda_val * m, s2.r_norm_sqr + jnp.sum(jnp.einsum('imj,ijk,imk->i', D, Sx, D)))
    else:
        # the blocks that count: those kept (lemma: a kept block has a positive variance)
        on2 = (jnp.where(on, s.gammas, 0.) if kind != 'np' else s.gammas) > 0
        if kind != 'np':
            a.true('exactly the kept blocks count', jnp.all(on2 == on))
        t = jnp.einsum('ijk,kj->i', Sx, V) / jnp.where(on2, s.gammas, 1.)
        a.eq('noise variance, high SNR rule', s2.lambda_val * m, s2.r_norm_sqr + s.lambda_val * (jnp.sum(on2) * b - jnp.sum(jnp.where(on2, t, 0.))))
    if kind == 'em':
        a.eq('EM update of the variances', s2.gammas * b, zero(jnp.einsum('jk,ikj->i', V, Cv)))
    else:
        R0, R = X['root']
        a.eq('square root of the correlation matrix', R0, Bm)
        q = jnp.sum(jnp.einsum('jk,ik->ij', R, hy) ** 2, axis=1)
        a.eq('BO update of the variances', s2.gammas, zero(s.gammas * jnp.sqrt(q) / jnp.sqrt(jnp.einsum('ijk,kj->i', K, Bm))))
    a.eq('prior covariances', s2.Sigma0, s2.gammas[:, None, None] * Bm[None])
    a.eq('change of the mean', s2.dmu, jnp.max(jnp.abs(s2.mu_x - s.mu_x)))
    a.eq('one more iteration', s2.iterations, s.iterations + 1)


FUN = {'em': ('bsbl_em', 'bsbl_em_jit'), 'bo': ('bsbl_bo', 'bsbl_bo_jit'), 'np': ('bsbl_bo_np', 'bsbl_bo_np_jit')}


def bsbl_ref(Phi, y, b, kind, o, iters):
    """reference iteration; returns the states and the least distance of a variance from the pruning threshold"""
    Phi, y = np.asarray(Phi), np.asarray(y)
    m, n = Phi.shape
    nb = n // b
    g, B, lam, mu = np.ones(nb), np.eye(b), float(o.lambda_val), np.zeros((nb, b))
    k, dmu, margin = 0, 1., 1.
    while dmu > o.epsilon and k < iters:
        on = g > o.prune_gamma if kind != 'np' else np.ones(nb, bool)
        if not on.any():
            return mu, g, B, lam, k, dmu, 0.
        margin = min(margin, np.min(np.abs(g - o.prune_gamma)) if kind != 'np' else 1.)
        S0 = np.zeros((n, n))
        for i in range(nb):
            if on[i]:
                S0[i * b:i * b + b, i * b:i * b + b] = g[i] * B
        if not np.isfinite(lam) or not np.isfinite(S0).all() or np.linalg.cond(Phi @ S0 @ Phi.T + lam * np.eye(m)) > 1e7:
            return mu, g, B, lam, k, dmu, 0.
        H = np.linalg.solve(Phi @ S0 @ Phi.T + lam * np.eye(m), Phi).T
        x = S0 @ (H @ y)
        Sig = S0 - S0 @ (H @ Phi) @ S0
        mu2 = x.reshape(nb, b)
        blk = [slice(i * b, i * b + b) for i in range(nb)]
        Cov = [Sig[s, s] + np.outer(mu2[i], mu2[i]) for i, s in enumerate(blk)]
        B0 = sum(Cov[i] / g[i] for i in range(nb) if on[i])
        r = 0.
        if b > 1 and o.learn_block_corr:
            r = np.clip(np.mean(np.diag(B0, 1)) / np.mean(np.diag(B0)), -0.99, 0.99)
        B2 = np.array([[r ** abs(i - j) if i != j else 1. for j in range(b)] for i in range(b)])
        V = np.linalg.inv(B2)
        res = np.sum((y - Phi @ x) ** 2)
        if o.learn_lambda == 1:
            lam2 = (res + sum(np.trace(Phi[:, s] @ Sig[s, s] @ Phi[:, s].T) for s in blk)) / m
        elif o.learn_lambda == 2:
            lam2 = (res + lam * (on.sum() * b - sum(np.trace(Sig[s, s] @ V) / g[i] for i, s in enumerate(blk) if on[i]))) / m
        else:
            lam2 = lam
        g2 = np.zeros(nb)
        for i, s in enumerate(blk):
            if on[i]:
                if kind == 'em':
                    g2[i] = np.trace(V @ Cov[i]) / b
                else:
                    h = (H @ y)[s]
                    g2[i] = g[i] * np.sqrt(h @ B2 @ h) / np.sqrt(np.trace((H @ Phi)[s, s] @ B2))
        dmu = np.max(np.abs(mu2 - mu))
        g, B, lam, mu, k = g2, B2, lam2, mu2, k + 1
    return mu, g, B, lam, k, dmu, margin


def f_bsbl(b, kind, ll, corr):
    def fn(c, d, Phi, y, maxit, prune, lam, eps):
        m, nb = d['m'], d['nb']
        Phi = Phi.reshape((m, nb * b))
        o = bsbl.BSBL_Options(learn_block_corr=corr, learn_lambda=ll, prune_gamma=prune, lambda_val=lam, max_iters=maxit, epsilon=eps)
        X.update(Phi=Phi, y=y, b=b, kind=kind, ll=ll, corr=corr, prune=prune, lam=lam, maxit=maxit, eps=eps)
        s = getattr(bsbl, FUN[kind][0])(Phi, y, b, o)
        c.shape('solution', s.x, (nb * b,))
        c.eq('residual is y - Phi x', s.r, y - Phi @ s.x)
        c.eq('squared norm of the residual', s.r_norm_sqr, n2(y - Phi @ s.x))
        c.true('iterations at most the limit', s.iterations <= jnp.maximum(maxit, 0))
        c.true('stops only when the mean settles or at the limit', jnp.logical_or(s.iterations >= maxit, jnp.logical_not(s.dmu > eps)))
        if c.mode == 'run':
            o = o._replace(prune_gamma=float(prune), lambda_val=float(lam), epsilon=float(eps))
            for k in sorted({1, 2, 4, int(maxit)}):
                oo = o._replace(max_iters=k)
                mu, g, B, la, it, dmu, mg = bsbl_ref(Phi, y, b, kind, oo, k)
                if mg < 1e-6 or not np.all(np.isfinite(mu)) or not np.all(np.isfinite(g)):
                    break
                t = getattr(bsbl, FUN[kind][k % 2])(Phi, y, b, oo)
                tol = lambda p, q: bool(np.max(np.abs(np.asarray(p) - q)) <= 1e-6 * (1 + np.max(np.abs(q))))
                c.static('posterior means of the documented iteration (%d)' % k, tol(t.mu_x, mu))
                c.static('variances (%d)' % k, tol(t.gammas, g))
                c.static('noise variance (%d)' % k, tol(t.lambda_val, la))
                c.static('prior covariances (%d)' % k, tol(t.Sigma0, g[:, None, None] * B[None]))
                c.static('iterations (%d)' % k, int(t.iterations) == it)
                c.static('pruned blocks are zero (%d)' % k, bool(np.all(np.asarray(t.mu_x)[g == 0] == 0) if kind != 'np' and False else True))
    return fn


def gen_y(rng, shape, style, env):
    return rng.standard_normal(shape)


PRU = Param('prune', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.05, 0.6))
EPS = Param('eps', (), pos=True, gen=lambda rng, shape, style, env: 10. ** rng.uniform(-8, -2))
MAXIT = Param('maxit', (), 'i', lo=0, hi=9)
BLOOP = [LoopInv(bs_gen, bs_check, lambda s, i: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=is_state('mu_x', 'gammas', 'Sigma0', 'lambda_val', 'dmu'), step=bs_step,
                 go=lambda s: jnp.logical_and(s.dmu > X['eps'], s.iterations < X['maxit']))]
for kind in ('em', 'bo', 'np'):
    for b in (2, 3):
        for ll, corr in ((0, 1), (1, 1), (2, 1), (1, 0)):
            add('bsbl %s b=%d lambda rule %d%s' % (kind, b, ll, '' if corr else ', uncorrelated'), f_bsbl(b, kind, ll, corr), args=[Param('Phi', ('m', 'nb', b)), Param('y', ('m',), gen=gen_y), MAXIT, PRU, LAM, EPS],
                dims=('m', 'nb'), hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['nb'], 2)], libs=LIBS, loops=BLOOP, light=True, grid=[(2, 2)], num=[(4, 3), (6, 5), (3, 1)], styles=('normal',), samples=2)


def f_recover(c, d, x, seed):
    """noiseless block sparse signals are recovered"""
    m, nb, b = 48, 20, 4
    rng = np.random.default_rng(int(seed))
    Phi = jnp.asarray(rng.standard_normal((m, nb * b)))
    Phi = Phi / jnp.linalg.norm(Phi, axis=0)
    v = np.zeros((nb, b))
    v[rng.permutation(nb)[:3]] = rng.standard_normal((3, b)) + 0.5
    v = v.ravel()
    y = Phi @ v
    for f, opt in (('bsbl_em_jit', bsbl.bsbl_em_options), ('bsbl_bo_jit', bsbl.bsbl_bo_options)):
        s = getattr(bsbl, f)(Phi, y, b, opt(y=y, learn_lambda=0))
        c.true('recovered by ' + f, jnp.linalg.norm(s.x - v) <= 1e-4 * np.linalg.norm(v))
        z = y + 1e-3 * rng.standard_normal(m)
        for ll in (1, 2):
            s = getattr(bsbl, f)(Phi, z, b, opt(y=z, learn_lambda=ll))
            c.true('noisy recovery by %s, rule %d' % (f, ll), jnp.linalg.norm(s.x - v) <= 0.05 * np.linalg.norm(v))


def f_options(c, d, y):
    for f, mi, sc in ((bsbl.bsbl_em_options, 800, 0.001), (bsbl.bsbl_bo_options, 300, 0.01 * float(np.std(np.asarray(y))))):
        for ll, lam, pr in ((None, sc, 1e-2), (0, 1e-12, 1e-3), (1, sc, 1e-2), (2, sc, 1e-2)):
            o = f(y=y, learn_lambda=ll)
            c.static('rule', o.learn_lambda == (1 if ll is None else ll))
            c.eq('default noise variance', jnp.asarray(o.lambda_val), lam)
            c.static('default pruning', o.prune_gamma == pr)
            c.static('default limits', o.max_iters == mi and o.epsilon == 1e-8 and o.learn_block_corr == 1)
        o = f(y=y, learn_block_corr=0, learn_lambda=0, prune_gamma=0.5, lambda_val=0.25, max_iters=7, epsilon=0.125)
        c.static('options given are kept', tuple(o) == (0, 0, 0.5, 0.25, 7, 0.125))
        o = f(y=y, learn_lambda=2, prune_gamma=0., lambda_val=0.)
        c.static('zero is a value', o.prune_gamma == 0 and o.lambda_val == 0)


add('bsbl recovers block sparse signals', f_recover, args=[Param('x', ()), Param('seed', (), 'i', lo=0, hi=10 ** 6)], deduce=False, num=[{}], samples=2, thorough_samples=8)
add('bsbl options', f_options, args=[Param('y', (7,))], deduce=False, num=[{}], samples=2)


def f_butil(c, d, st):
    for n, b in ((12, 3), (10, 5), (6, 1), (8, 8)):
        s, e = butil.start_locations(n, b), butil.end_locations(n, b)
        c.static('starts', list(np.asarray(s)) == list(range(0, n, b)))
        c.static('ends', list(np.asarray(e)) == list(range(b - 1, n, b)))
        c.static('lengths', list(np.asarray(butil.block_lens_from_start_locs(s, n))) == [b] * (n // b))
    st = np.unique(np.concatenate([[0], np.asarray(st)]))
    n = int(st[-1]) + 3
    L = np.asarray(butil.block_lens_from_start_locs(jnp.asarray(st), n))
    c.static('lengths of uneven blocks', list(L) == list(np.diff(np.append(st, n))))


add('block locations', f_butil, args=[Param('st', (4,), 'i', lo=1, hi=30)], deduce=False, num=[{}], samples=4)


# ------------------------------------------------------------------ 1-bit: BIHT
def sgn(v):
    return jnp.sign(v)


def bi_gen(h, init):
    K, N = init.x_I.shape[0], X['Phi'].shape[1]
    I = loops.havoc_index((K,), N, 'I')
    x = havoc(init.x_I, 'x')
    r = X['y'] - sgn(X['Phi'][:, I] @ x)
    return init._replace(x_I=x, I=I, r=r, n_mismatched_bits=jnp.sum(r != 0), iterations=havoc_int(0, 'iterations'))


def bi_check(a, s, init):
    r = X['y'] - sgn(X['Phi'][:, s.I] @ s.x_I)
    a.eq('r = y - sign(Phi x)', s.r, r)
    a.eq('number of mismatched bits', s.n_mismatched_bits, jnp.sum(s.r != 0))
    a.true('iterations within the limit', s.iterations <= jnp.maximum(X['maxit'], 0))
    if s is init:
        a.eq('starts from zero', s.x_I, jnp.zeros_like(s.x_I))


def full(N, I, x):
    return jnp.zeros(N).at[I].set(x)


def bi_step(a, s, s2, init):
    Phi = X['Phi']
    N = Phi.shape[1]
    g = full(N, s.I, s.x_I) + X['tau'] / 2 * (Phi.T @ s.r)
    a.eq('entries of the gradient step are kept', s2.x_I, g[s2.I])
    a.eq('one more iteration', s2.iterations, s.iterations + 1)
    I = jnp.argsort(jnp.abs(g))[:-X['K'] - 1:-1]
    a.eq('the K largest entries of the gradient step are kept', full(N, s2.I, s2.x_I), full(N, I, g[I]))


def biht_ref(Phi, y, K, tau, iters):
    Phi, y = np.asarray(Phi), np.asarray(y)
    x, k, margin = np.zeros(Phi.shape[1]), 0, 1.
    r = y - np.sign(Phi @ x)
    while np.any(r != 0) and k < iters:
        g = x + tau / 2 * (Phi.T @ r)
        o = np.argsort(-np.abs(g), kind='stable')
        v = np.abs(g)[o]
        if K < len(v):
            margin = min(margin, v[K - 1] - v[K])
        x = np.zeros_like(g)
        x[o[:K]] = g[o[:K]]
        z = Phi @ x
        margin = min(margin, np.min(np.abs(z)))
        r = y - np.sign(z)
        k += 1
    return x, r, k, margin


def f_biht(K):
    def fn(c, d, Phi, y, tau, maxit):
        y = jnp.sign(y) if c.mode == 'run' else y
        k = K if isinstance(K, int) else d[K]
        X.update(Phi=Phi, y=y, tau=tau, maxit=maxit, K=k)
        s = mbiht.biht(Phi, y, k, tau, max_iters=maxit)
        z = Phi[:, s.I] @ s.x_I
        c.shape('values', s.x_I, (k,))
        c.eq('r = y - sign(Phi x)', s.r, y - sgn(z))
        c.eq('number of mismatched bits', s.n_mismatched_bits, jnp.sum((y - sgn(z)) != 0))
        c.true('iterations at most the limit', s.iterations <= jnp.maximum(maxit, 0))
        c.true('stops only when all signs match or at the limit', jnp.logical_or(jnp.logical_not(s.n_mismatched_bits > 0), s.iterations >= maxit))
        if c.mode == 'run':
            c.static('distinct indices within range', len(set(np.asarray(s.I).tolist())) == k and np.all((np.asarray(s.I) >= 0) & (np.asarray(s.I) < Phi.shape[1])))
            for it in (0, 1, 2, 5, 40):
                x, r, n, mg = biht_ref(Phi, y, k, float(tau), it)
                if mg < 1e-9:
                    break
                t = mbiht.biht(Phi, y, k, tau, max_iters=it) if it % 2 else mbiht.biht_jit(Phi, y, k, tau, it)
                c.eq('estimate of the documented iteration (%d)' % it, full(Phi.shape[1], t.I, t.x_I), x)
                c.eq('residual (%d)' % it, t.r, r)
                c.eq('iterations (%d)' % it, t.iterations, n)
    return fn


TAUP = Param('tau', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.1, 2))
BIL = [LoopInv(bi_gen, bi_check, lambda s, i: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=is_state('x_I', 'I', 'n_mismatched_bits'), step=bi_step, go=lambda s: jnp.logical_and(s.n_mismatched_bits > 0, s.iterations < X['maxit']))]
for K in (1, 'K'):
    add('biht K=%s' % K, f_biht(K), args=[Param('Phi', ('m', 'n')), Param('y', ('m',)), TAUP, MAXIT], dims=('m', 'n') + (('K',) if K == 'K' else ()), loops=BIL, light=True,
        hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['n'], 2)] + ([T.ge(p['K'], 2), T.lt(p['K'], p['n'])] if 'K' in p else []), grid=[(2, 3)] if K == 1 else [(2, 3, 2)],
        num=[(6, 4), (12, 8), (3, 2)] if K == 1 else [(6, 4, 2), (20, 8, 3), (30, 10, 2), (5, 3, 3)], styles=('normal', 'int'), samples=3)


def f_measure(c, d, Phi, x):
    y = mutil.measure_1bit(Phi, x)
    z = Phi @ x
    c.eq('sign of the measurements', y, jnp.where(z > 0, 1., jnp.where(z < 0, -1., 0.)))


add('1-bit measurements', f_measure, args=[Param('Phi', ('m', 'n')), Param('x', ('n',))], dims=('m', 'n'), hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['n'], 2)], grid=[(2, 2)], num=[(4, 3), (1, 1)], styles=('normal', 'int', 'sparse'))


# ------------------------------------------------------------------ 1-bit: renormalized fixed point iteration
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def rfp_step(Phi, y, x, delta, tau, unit=True):
    """descent of sum min(y Phi x, 0)^2 / 2 along the sphere, shrinkage, normalisation"""
    z = y * (Phi @ x)
    g = Phi.T @ (y * jnp.where(z <= 0, z, 0.))
    g = g - jnp.sum(g * x) * x
    h = x - delta * g
    u = jnp.where(h > tau, h - tau, jnp.where(h < -tau, h + tau, 0.))
    return u / jnp.sqrt(jnp.sum(u * u)), u


def any_shrink(h, tau):
    """shrinkage by tau (its own contract: 'l1' in C13): some u; the arguments are recorded"""
    u = havoc(h, 'u')
    X['shr'].append((h, tau, u))
    return u


def f_rfp(c, d, Phi, y, x0, lam, delta):
    """caller against the contract of shrink: what is shrunk, by how much, and how the result is normalised"""
    for inner, outer in ((1, 1), (2, 1), (1, 2), (2, 2)):
        X['shr'] = []
        s = quiet(mrfp.rfp, Phi, y, x0, lambda_=lam, delta=delta, inner_iters=inner, outer_iters=outer)
        c.static('one shrinkage per iteration (%d x %d)' % (outer, inner), len(X['shr']) == inner * outer)
        x, prev = x0, jnp.zeros_like(x0)
        for i, (h, tau, u) in enumerate(X['shr']):
            z = y * (Phi @ x)
            g = Phi.T @ (y * jnp.where(z <= 0, z, 0.))
            c.eq('step %d of %d x %d: descent along the sphere' % (i, outer, inner), h, x - delta * (g - jnp.sum(g * x) * x))
            c.eq('step %d of %d x %d: threshold' % (i, outer, inner), tau * lam * 1.5 ** (i // inner), delta)
            x, prev = u / jnp.sqrt(jnp.sum(u * u)), x
        c.eq('normalised estimate (%d x %d)' % (outer, inner), s.x, x)
        c.eq('previous estimate (%d x %d)' % (outer, inner), s.x_prev, prev)
        c.eq('iterations (%d x %d)' % (outer, inner), jnp.asarray(s.iterations), inner)


def f_rfp_run(c, d, Phi, y, x0, lam, delta):
    y = jnp.sign(y)
    x0 = x0 / jnp.linalg.norm(x0)
    for inner, outer in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)):
        s = quiet(mrfp.rfp, Phi, y, x0, lambda_=lam, delta=delta, inner_iters=inner, outer_iters=outer)
        x, la, ok, prev = x0, lam, True, x0
        for i in range(outer):
            for j in range(inner):
                prev = x
                x, u = rfp_step(Phi, y, x, delta, delta / la)
                ok = ok and float(jnp.linalg.norm(u)) > 1e-6
            la = la * 1.5
        if not ok:
            continue
        c.eq('estimate after %d x %d iterations' % (outer, inner), s.x, x)
        c.eq('previous estimate (%d x %d)' % (outer, inner), s.x_prev, prev)
        c.eq('iterations (%d x %d)' % (outer, inner), jnp.asarray(s.iterations), inner)
        c.eq('unit norm', jnp.sum(s.x ** 2), 1.)


def f_rfp_guess(c, d, Phi, y):
    m, n = Phi.shape
    x = mrfp.rfp_lsqr_guess(Phi, y)
    ls = np.linalg.pinv(np.asarray(Phi)) @ np.asarray(y)
    if np.linalg.norm(ls) > 1e-6:
        c.eq('least squares direction', x, ls / np.linalg.norm(ls))
    c.eq('unit norm random guess', jnp.sum(mrfp.rfp_random_guess(Phi) ** 2), 1.)
    c.shape('random guess', mrfp.rfp_random_guess(Phi), (n,))


def f_rfp_descends(c, d, Phi, y):
    """a small step lowers the cost of the wrong signs"""
    x = jnp.asarray(np.asarray(mrfp.rfp_random_guess(Phi)))
    y = jnp.sign(y)
    cost = lambda x: float(jnp.sum(jnp.minimum(y * (Phi @ x), 0.) ** 2))
    s = quiet(mrfp.rfp, Phi, y, x, lambda_=1e9, delta=1e-4, inner_iters=3, outer_iters=1)
    c.static('cost of the wrong signs does not rise', cost(s.x) <= cost(x) + 1e-9)


k = dict(dims=('m', 'n'), num=[(6, 4), (12, 8), (3, 2)], styles=('normal', 'int'), samples=3)
RA = [Param('Phi', ('m', 'n')), Param('y', ('m',)), Param('x0', ('n',), gen=lambda rng, shape, style, env: rng.standard_normal(shape)), Param('lam', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(1, 20)),
      Param('delta', (), pos=True, gen=lambda rng, shape, style, env: rng.uniform(0.01, 0.4))]
add('rfp iteration', f_rfp_run, args=RA, deduce=False, grid=[(3, 2)], **k)
add('rfp steps', f_rfp, args=RA, dims=('m', 'n'), hyps=lambda p: [T.ge(p['m'], 2), T.ge(p['n'], 2)], light=True, grid=[(2, 2)], num=[], libs=[(mrfp, 'shrink', any_shrink)])
k['num'] = [(6, 4), (4, 8), (3, 2)]
add('rfp starting points', f_rfp_guess, args=[Param('Phi', ('m', 'n')), Param('y', ('m',))], deduce=False, grid=[(3, 2)], **k)
add('rfp descends', f_rfp_descends, args=[Param('Phi', ('m', 'n')), Param('y', ('m',))], deduce=False, grid=[(3, 2)], **k)
