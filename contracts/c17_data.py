"""C17 synthetic data: sparse signals, block sparse signals, index sets, subspaces and points on them."""
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse._src.data.synthetic import random as syn, subspaces as sub
from vf.contract import Contract, Param
from vf import terms as T, loops

CONTRACTS = {k: [] for k in ('C17',)}


SHIM = loops.Random()
LIBS = ([(syn, 'random', SHIM)] if hasattr(syn, 'random') else []) + [loops.SQUEEZE]
SEED = Param('seed', (), 'i', lo=0, hi=100000)
SA = Param('a', (), pos=True)
SW = Param('w', (), nonneg=True)
COR = Param('cor', (), within=(-1, 1))


def key_of(c, seed):
    SHIM.draws.clear()
    return SHIM.PRNGKey(seed) if c.mode == 'trace' else jax.random.PRNGKey(seed)


def add(name, fn, **kw):
    CONTRACTS['C17'].append(Contract(name, fn, **kw))


def support(c, d, X, omega, K, D):
    """X (D, S): omega is a sorted set of K indices, X is zero off it"""
    c.shape('support', omega, (K,))
    c.true('support within range', jnp.logical_and(omega >= 0, omega < D))
    if c.mode == 'run' or isinstance(K, int):
        c.true('support sorted without repetition', omega[1:] > omega[:-1])
    if c.mode == 'run' or isinstance(K, int):
        hit = jnp.any(jnp.arange(D)[:, None] == omega[None, :], axis=1)
        c.true('zero off the support', jnp.logical_or(hit[:, None], X == 0))
    else:
        c.eq('zero off the support', X, jnp.zeros_like(X).at[omega, :].set(X[omega, :]))


def f_sparse(kind, K, S):
    def fn(c, d, seed, a, w):
        D, k, s = d['D'], (d['K'] if K is None else K), (d['S'] if S is None else S)
        key = key_of(c, seed)
        if kind == 'normal':
            X, om = syn.sparse_normal_representations(key, D, k, s) if S != 1 else syn.sparse_normal_representations(key, D, k)
        elif kind == 'biuniform':
            X, om = syn.sparse_biuniform_representations(key, a, a + w, D, k, s) if S != 1 else syn.sparse_biuniform_representations(key, a, a + w, D, k)
        else:
            X, om = syn.sparse_spikes(key, D, k, s) if S != 1 else syn.sparse_spikes(key, D, k)
        c.shape('signals', X, (D,) if S == 1 else (D, s))
        X = X.reshape((D, s)) if S == 1 else X
        support(c, d, X, om, k, D)
        v = X[om, :]
        if kind == 'normal':
            c.true('nonzero on the support', v != 0)
        elif kind == 'biuniform':
            c.le('magnitudes at least a', a, jnp.abs(v) * (1 + (1e-6 if c.mode == 'run' else 0)))
            c.le('magnitudes at most b', jnp.abs(v), (a + w) * (1 + (1e-6 if c.mode == 'run' else 0)))
        else:
            c.eq('spikes are plus or minus one', jnp.abs(v), jnp.ones_like(v))
    return fn


for kind in ('normal', 'biuniform', 'spikes'):
    for S in (1, None):
        dims = ('D', 'K') + (() if S else ('S',))
        sizes = [(3, 1), (3, 2), (3, 3), (5, 2)] if S else [(3, 1, 2), (3, 2, 2), (2, 2, 3)]
        num = [(9, 4), (4, 4), (6, 1), (60, 9)] if S else [(9, 4, 5), (4, 4, 2), (6, 1, 3), (30, 7, 40)]
        add('sparse %s signals, %s' % (kind, 'one' if S else 'several'), f_sparse(kind, None, S), args=[SEED, SA, SW], dims=dims, libs=LIBS,
            hyps=lambda p, S=S: [T.ge(p['D'], 2), T.le(p['K'], p['D']), T.ge(p['K'], 2)] + ([] if S else [T.ge(p['S'], 2)]), grid=sizes, num=num, samples=4, targets=[syn])


# ------------------------------------------------------------------ index sets
def f_index_sets(axis):
    def fn(c, d, seed):
        N, K, S = d['N'], d['K'], d['S']
        I = syn.index_sets(key_of(c, seed), N, K, S, axis) if axis else syn.index_sets(key_of(c, seed), N, K, S)
        c.shape('index sets', I, (K, S) if axis else (S, K))
        c.true('within range', jnp.logical_and(I >= 0, I < N))
        J = I.T if axis else I
        same = J[:, :, None] == J[:, None, :]
        c.eq('indices of a set are distinct', same, jnp.broadcast_to((jnp.arange(K)[:, None] == jnp.arange(K)[None, :])[None], (S, K, K)))
        if c.mode == 'run' and S > 4 and K < N and N > 8:
            c.static('the sets are drawn separately', len({tuple(sorted(np.asarray(j))) for j in J}) > 1)
    return fn


for axis in (0, 1):
    add('index sets along axis %d' % axis, f_index_sets(axis), args=[SEED], dims=('N', 'K', 'S'), libs=LIBS, hyps=lambda p: [T.le(p['K'], p['N'])],
        grid=[(3, 2, 2), (2, 2, 2), (3, 1, 2)], num=[(9, 4, 5), (4, 4, 3), (12, 5, 8), (2, 1, 1)], samples=3)


# ------------------------------------------------------------------ orthogonal points
def f_orth(c, d, seed, x):
    c.assume(jnp.sum(x * x) > 0)
    p = syn.points_orthogonal_to(key_of(c, seed), x, d['S'])
    c.shape('points', p, (d['S'], d['n']))
    c.eq('orthogonal to x', p @ x, jnp.zeros(d['S']))
    if c.mode == 'run' and d['n'] > 2:
        c.true('not degenerate', jnp.sum(p * p, axis=1) > 1e-8)
        if d['S'] > 1:
            c.true('distinct points', jnp.sum((p[0] - p[1]) ** 2) > 1e-8)


add('points orthogonal to a vector', f_orth, args=[SEED, Param('x', ('n',))], dims=('n', 'S'), libs=LIBS, grid=[(2, 2), (3, 1)], num=[(6, 5), (3, 1), (40, 7)])


# ------------------------------------------------------------------ block sparse signals
def f_blocks(B, S, cor, normalize):
    def fn(c, d, seed, rho):
        C, K, s = d['C'], d['K'], (d['S'] if S is None else S)
        D = C * B
        key = key_of(c, seed)
        kw = dict(cor=(0.6 if c.mode == 'trace' else float(rho))) if cor else {}
        if normalize:
            kw['normalize_blocks'] = True
        X, blocks, idx = syn.sparse_normal_blocks(key, D, K, B, s, **kw) if S is None or kw else syn.sparse_normal_blocks(key, D, K, B)
        c.shape('signals', X, (D,) if S == 1 else (D, s))
        c.shape('blocks', blocks, (K,))
        c.shape('indices', idx, (K * B,))
        X = X.reshape((D, s)) if S == 1 else X
        c.true('blocks within range', jnp.logical_and(blocks >= 0, blocks < C))
        c.eq('indices are those of the blocks', idx.reshape((K, B)), blocks[:, None] * B + jnp.arange(B)[None, :])
        V = X.reshape((C, B, s))
        if c.mode == 'run' or isinstance(K, int):
            c.true('blocks sorted without repetition', blocks[1:] > blocks[:-1])
            hit = jnp.any(jnp.arange(C)[:, None] == blocks[None, :], axis=1)
            c.true('zero off the blocks', jnp.logical_or(hit[:, None, None], V == 0))
        else:
            c.eq('zero off the blocks', V, jnp.zeros_like(V).at[blocks].set(V[blocks]))
        W = V[blocks]                      # (K, B, s)
        if c.mode == 'run':
            c.true('nonzero on the blocks', W != 0)
        if normalize:
            if c.mode == 'trace':
                n = [v for k, v in SHIM.draws if k == 'normal'][0]
                c.assume(jnp.sum(n * n, axis=1) > 0)
            c.eq('blocks have unit norm', jnp.sum(W * W, axis=1), jnp.ones((K, s)))
        if cor and c.mode == 'trace' and B > 1:
            n = [v for k, v in SHIM.draws if k == 'normal'][0]
            if len(n.shape) == 2 and n.shape[0] == K * s and n.shape[1] == B:
                V = W.transpose(2, 0, 1).reshape((K * s, B))
                c.eq('first entries are drawn', V[:, 0], n[:, 0])
                for i in range(1, B):
                    c.eq('autoregression of order one, unit variance: entry %d' % i, V[:, i], 0.6 * V[:, i - 1] + float(np.sqrt(1 - 0.6 ** 2)) * n[:, i])
        if c.mode == 'run' and s > 20:
            # sample correlation of neighbouring entries within a block against the requested coefficient
            if B > 1 and not normalize:
                P = W.transpose(1, 0, 2).reshape(B, -1)
                n = P.shape[1]
                for i in range(B):
                    c.true('entries of unit variance', abs(float(jnp.mean(P[i] ** 2)) - 1) < 7 * (2 / n) ** 0.5)
                for i in range(B):
                    for j in range(i):
                        c.true('intra block correlation %d %d' % (i, j), abs(float(jnp.mean(P[i] * P[j])) - (float(rho) if cor else 0.) ** (i - j)) < 7 * (2 / n) ** 0.5)
    return fn


for B in (1, 2, 3):
    for S in (1, None):
        for cor, norm in ((False, False), (False, True), (True, False)):
            dims = ('C', 'K') + (() if S else ('S',))
            add('block sparse signals B=%d %s%s%s' % (B, 'one' if S else 'several', ', correlated' if cor else '', ', unit blocks' if norm else ''),
                f_blocks(B, S, cor, norm), args=[SEED, COR], dims=dims, libs=LIBS,
                hyps=lambda p, S=S: [T.le(p['K'], p['C']), T.ge(p['K'], 2)] + ([T.ge(p['C'], 2)] if S else [T.ge(p['C'], 2), T.ge(p['S'], 2)]),
                grid=[(2, 1), (3, 2), (2, 2)] if S else [(2, 1, 2), (3, 2, 2)],
                num=[(5, 3), (4, 4), (6, 1)] if S else [(5, 3, 4), (4, 4, 2), (6, 2, 20000)], samples=3, styles=('normal', 'small', 'neg', 'big'))


def f_blocks_bad(c, d, seed):
    for D, B in ((7, 3), (4, 3), (10, 4), (5, 2)):
        try:
            syn.sparse_normal_blocks(key_of(c, seed), D, 1, B)
            c.static('rejected', False, 'D=%d B=%d accepted' % (D, B))
        except ValueError:
            pass


add('block sparse signals reject a partial block', f_blocks_bad, args=[SEED], deduce=False, num=[{}], samples=1)


# ------------------------------------------------------------------ subspaces
def f_random_subspaces(which):
    def fn(c, d, seed):
        f = {'plain': sub.random_subspaces, 'jit': sub.random_subspaces_jit}[which]
        b = f(jax.random.PRNGKey(seed), d['N'], d['D'], d['K'])
        c.static('number of bases', len(b) == d['K'])
        for i, Q in enumerate(b):
            c.shape('basis', Q, (d['N'], d['D']))
            c.eq('orthonormal', Q.T @ Q, jnp.eye(d['D']))
        if d['K'] > 1:
            c.true('distinct subspaces', d['N'] == d['D'] or float(jnp.max(jnp.abs(b[0] @ b[0].T - b[1] @ b[1].T))) > 1e-6)
    return fn


def qr_stub(A, *a, **k):
    """assumed contract of jnp.linalg.qr (reduced): orthonormal columns, R with nonzero diagonal for a full rank matrix"""
    Q = loops.havoc(A, 'Q')
    Rr = loops.havoc_shape((A.shape[1], A.shape[1]), A.dtype, 'R', lambda a: [T.neg(T.eq(T.of_atom(a), 0))])
    n = A.shape[1]
    loops.assume(Q.T @ Q == jnp.eye(n))
    return Q, Rr


QR = [(jnp.linalg, 'qr', qr_stub)]
SUBLIBS = ([(sub, 'random', SHIM)] if hasattr(sub, 'random') else []) + QR


def f_subspaces(c, d, seed):
    b = sub.random_subspaces(key_of(c, seed), d['N'], d['D'], 2)
    c.static('number of bases', len(b) == 2)
    for i, Q in enumerate(b):
        c.shape('basis', Q, (d['N'], d['D']))
        c.eq('orthonormal %d' % i, Q.T @ Q, jnp.eye(d['D']))


add('random subspaces have orthonormal bases', f_subspaces, args=[SEED], dims=('N', 'D'), libs=SUBLIBS, hyps=lambda p: [T.le(p['D'], p['N'])],
    grid=[(2, 1), (3, 2), (2, 2)], num=[(6, 3), (5, 5), (30, 4)])
for w in ('plain', 'jit'):
    add('random subspaces, ' + w, f_random_subspaces(w), args=[SEED], dims=('N', 'D', 'K'), deduce=False, grid=[(6, 3, 4)], num=[(6, 3, 4), (5, 5, 2), (9, 1, 3)], samples=2)


def f_points(c, d, seed, A0, A1):
    """the bases may have different dimensions"""
    n = d['n']
    bases = [A0, A1]
    if c.mode == 'run':
        bases = [jnp.linalg.qr(A)[0] for A in bases]
    else:
        for A in bases:
            c.assume(A.T @ A == jnp.eye(A.shape[1]))
    X = sub.uniform_points_on_subspaces(key_of(c, seed), bases, n)
    if c.mode == 'trace':
        for k, v in SHIM.draws:
            c.assume(jnp.sum(v * v, axis=0) > 0)
    c.shape('points', X, (d['N'], 2 * n))
    for i, A in enumerate(bases):
        Y = X[:, i * n:(i + 1) * n]
        c.eq('unit norm %d' % i, jnp.sum(Y * Y, axis=0), jnp.ones(n))
        if c.mode == 'run':
            c.eq('in subspace %d' % i, A @ (A.T @ Y), Y)
            if A.shape[1] > 1 and n > 1:
                c.true('points differ', jnp.sum((Y[:, 0] - Y[:, 1]) ** 2) > 1e-10)
        else:
            v = SHIM.draws[i][1]
            c.eq('in subspace %d' % i, Y, A @ (v / jnp.sqrt(jnp.sum(v * v, axis=0))))
    if c.mode == 'run':
        Z = sub.uniform_points_on_subspaces_jit(jax.random.PRNGKey(seed), bases, n)
        c.eq('compiled form', Z, X)


add('points on subspaces', f_points, args=[SEED, Param('A0', ('N', 'd0'), ortho=0), Param('A1', ('N', 'd1'), ortho=0)], dims=('N', 'd0', 'd1', 'n'), libs=SUBLIBS,
    hyps=lambda p: [T.le(p['d0'], p['N']), T.le(p['d1'], p['N']), T.ge(p['d0'], 2), T.ge(p['d1'], 2), T.ge(p['n'], 2)], grid=[(2, 1, 1, 1)], light=True, num=[(6, 2, 3, 4), (5, 5, 1, 1), (4, 2, 2, 9)], styles=('normal', 'big', 'small'), timeout=15000)


def f_angles(count):
    def fn(c, d, seed, theta):
        N, D = d['N'], d['D']
        th = float(theta)
        f = sub.two_subspaces_at_angle if count == 2 else sub.three_subspaces_at_angle
        out = f(jax.random.PRNGKey(seed), N, D, th)
        g = sub.two_subspaces_at_angle_jit if count == 2 else sub.three_subspaces_at_angle_jit
        c.static('number of bases', len(out) == count)
        for U, V in zip(out, g(jax.random.PRNGKey(seed), N, D, th)):
            c.eq('compiled form', U, V)
        cs = np.cos(np.deg2rad(th))
        for i in range(count):
            c.shape('basis', out[i], (N, D))
            c.eq('orthonormal', out[i].T @ out[i], jnp.eye(D))
            for j in range(i):
                G = np.zeros((D, D))
                G[0, 0] = cs
                s = jnp.linalg.svd(out[i].T @ out[j], compute_uv=False)
                c.eq('smallest principal angle is theta, the others are right angles', s, jnp.asarray(np.sort(np.abs(G[0]))[::-1]))
                c.eq('cosine between the first axes', out[i][:, 0] @ out[j][:, 0], cs)
    return fn


for k in (2, 3):
    add('%d subspaces at an angle' % k, f_angles(k), args=[SEED, Param('theta', (), gen=lambda rng, shape, style, env: rng.uniform(3, 87))], dims=('N', 'D'),
        deduce=False, grid=[(k, 1)], num=[(k, 1), (2 * k, 2), (4 * k, 3), (3 * k + 2, 2)], samples=4, thorough_samples=10)
