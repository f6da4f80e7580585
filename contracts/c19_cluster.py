"""C19 clustering: k-means, graph Laplacians, label matching, sparse subspace clustering."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse._src.cluster import kmeans as km, spectral as sp, util as cu
from cr.sparse._src.cluster.ssc import omp as so, util as su
from vf.contract import Contract, Param, SkipSample
from vf import terms as T, loops
from vf.loops import LoopInv, havoc, havoc_int, havoc_index
from c10_linear import is_state
from c17_data import SEED

CONTRACTS = {k: [] for k in ('C19',)}
X = {}
SHIM = loops.Random()
DIAG = [(jnp, 'diag_indices', lambda n, ndim=2: (jnp.arange(n),) * ndim)]
KLIBS = [(km, 'random', SHIM)] if hasattr(km, 'random') else []


def add(name, fn, **kw):
    CONTRACTS['C19'].append(Contract(name, fn, **kw))


def gen_points(rng, shape, style, env):
    v = rng.standard_normal(shape) * {'big': 20., 'small': 0.05, 'tiny': 0.002}.get(style, 1.)
    if style == 'int':
        v = rng.integers(-2, 3, shape) + 0.
    if style == 'sparse':
        v += 8 * rng.integers(0, 3, (shape[0], 1))
    return v


PTS = Param('points', ('n', 'p'), gen=gen_points)
CEN = Param('centroids', ('k', 'p'), gen=gen_points)
ASG = Param('assignment', ('n',), 'i', lo=0, hi='k')
NPK = ('n', 'p', 'k')


def dist2(points, centroids):
    return jnp.sum((points[:, None, :] - centroids[None, :, :]) ** 2, axis=2)


# ------------------------------------------------------------------ k-means
def f_nearest(c, d, points, centroids):
    x = points[0]
    i = km.find_nearest(x, centroids)
    D = jnp.sqrt(jnp.sum((centroids - x) ** 2, axis=1))
    c.true('index of a centroid', jnp.logical_and(i >= 0, i < d['k']))
    c.true('no centroid is nearer', D[i] <= D * (1 + (1e-12 if c.mode == 'run' else 0)))
    if c.mode == 'run':
        c.eq('compiled form', km.find_nearest_jit(x, centroids), i)


def f_assignment(c, d, points, centroids):
    a, dist = km.find_assignment(points, centroids)
    c.shape('assignment', a, (d['n'],))
    c.shape('distances', dist, (d['n'],))
    c.true('indices of centroids', jnp.logical_and(a >= 0, a < d['k']))
    D = jnp.sqrt(dist2(points, centroids))
    c.true('no centroid is nearer than the assigned one', dist[:, None] <= D * (1 + (1e-12 if c.mode == 'run' else 0)) + (1e-14 if c.mode == 'run' else 0))
    c.eq('distance to the assigned centroid', dist, jnp.sqrt(jnp.sum((centroids[a] - points) ** 2, axis=1)))
    if c.mode == 'run':
        b, e = km.find_assignment_jit(points, centroids)
        c.eq('compiled form', b, a)
        c.eq('compiled form distances', e, dist)


def means(assignment, points, k):
    M = (assignment[None, :] == jnp.arange(k)[:, None])
    cnt = jnp.sum(M, axis=1)
    return jnp.sum(jnp.where(M[:, :, None], points[None, :, :], 0.), axis=1), cnt


def f_centroids(c, d, points, assignment):
    k = d['k']
    C = km.find_new_centroids(assignment, points, k)
    c.shape('centroids', C, (k, d['p']))
    S, cnt = means(assignment, points, k)
    c.eq('centroid is the mean of its points (the origin when it has none)', C * jnp.maximum(cnt, 1)[:, None], S)
    c.eq('counts, at least one', km.assignment_counts(assignment, k), jnp.maximum(cnt, 1)[:, None])
    if c.mode == 'run':
        c.eq('compiled form', km.find_new_centroids_jit(assignment, points, k), C)


add('nearest centroid', f_nearest, args=[PTS, CEN], dims=NPK, hyps=lambda p: [T.ge(p['k'], 2), T.ge(p['p'], 2), T.ge(p['n'], 2)], grid=[(1, 2, 2), (2, 1, 3)], num=[(3, 4, 5), (2, 1, 1), (2, 3, 2)], light=True)
add('assignment to the nearest centroid', f_assignment, args=[PTS, CEN], dims=NPK, hyps=lambda p: [T.ge(p['k'], 2), T.ge(p['p'], 2), T.ge(p['n'], 2)], grid=[(2, 1, 2), (2, 2, 2)],
    num=[(7, 4, 5), (4, 1, 1), (9, 3, 2)], light=True)
add('new centroids', f_centroids, args=[PTS, ASG], dims=NPK, hyps=lambda p: [T.ge(p['k'], 2), T.ge(p['p'], 2), T.ge(p['n'], 2)], grid=[(2, 1, 2), (3, 2, 2)],
    num=[(7, 4, 5), (4, 1, 1), (9, 3, 2), (2, 2, 4)], light=True)


def k_gen(h, init):
    c = havoc(init.centroids, 'centroids')
    a, dist = X['assign'](X['points'], c)
    return type(init)(centroids=c, assignment=a, distortion=jnp.mean(dist), prev_distortion=havoc(jnp.asarray(1.), 'prev'), iterations=havoc_int(0, 'iterations'))


def k_check(a, s, init):
    asg, dist = X['assign'](X['points'], s.centroids)
    a.eq('assignment belongs to the centroids', s.assignment, asg)
    a.eq('distortion is the mean distance', s.distortion, jnp.mean(dist))
    a.true('iterations within the limit', s.iterations <= jnp.maximum(X['maxit'], 0))


def k_step(a, s, s2, init):
    S, cnt = means(s.assignment, X['points'], X['k'])
    a.eq('centroids are the means of the previous clusters', s2.centroids * jnp.maximum(cnt, 1)[:, None], S)
    a.eq('previous distortion', s2.prev_distortion, s.distortion)
    a.eq('one more iteration', s2.iterations, s.iterations + 1)


def lloyd(points, idx, k, thresh, maxit):
    P = np.asarray(points)
    C = P[idx]

    def assign(C):
        D = np.sqrt(((P[:, None] - C[None]) ** 2).sum(axis=2))
        return D.argmin(axis=1), D.min(axis=1).mean(), np.sort(D, axis=1)
    a, m, D = assign(C)
    pm, it, hist = np.inf, 0, [D]
    while pm - m > thresh and it < maxit:
        C = np.array([P[a == j].mean(axis=0) if (a == j).any() else np.zeros(P.shape[1]) for j in range(k)])
        pm = m
        a, m, D = assign(C)
        hist.append(D)
        it += 1
    margin = min((D[:, 1] - D[:, 0]).min() if D.shape[1] > 1 else 1. for D in hist)
    return C, a, m, it, margin, abs(pm - m - thresh) if np.isfinite(pm) else 1.


def f_kmeans_seed(c, d, seed, points):
    k, n = d['k'], d['n']
    thresh, maxit = 1e-5, 30
    X.update(points=points, k=k, maxit=maxit, assign=km.find_assignment)
    key = SHIM.PRNGKey(0) if c.mode == 'trace' else jax.random.PRNGKey(seed)
    if c.mode == 'trace':
        X['maxit'] = maxit = havoc_int(0, 'maxit')
        X['thresh'] = thresh = havoc(jnp.asarray(1.), 'thresh')
    s = km.kmeans_with_seed(key, points, k, thresh=thresh, max_iters=maxit)
    a, dist = km.find_assignment(points, s.centroids)
    c.shape('centroids', s.centroids, (k, d['p']))
    c.eq('assignment belongs to the centroids', s.assignment, a)
    c.eq('distortion is the mean distance', s.distortion, jnp.mean(dist))
    c.true('stops when the distortion gains little or at the iteration limit', jnp.logical_or(jnp.logical_not(s.prev_distortion - s.distortion > thresh), s.iterations >= maxit))
    c.true('iterations at most the limit', s.iterations <= maxit)
    if c.mode == 'run':
        t = km.kmeans_with_seed(key, points, k, max_iters=0)
        C = np.asarray(t.centroids)
        idx = [int(np.argmin(((np.asarray(points) - C[j]) ** 2).sum(axis=1))) for j in range(k)]
        c.eq('starts at data points', t.centroids, points[jnp.asarray(idx)])
        P = np.asarray(points)
        if len({tuple(r) for r in P}) == n:
            c.static('starts at distinct data points', len(set(idx)) == k)
        for mi in (1, 2, 30):
            t = km.kmeans_with_seed(key, points, k, thresh=1e-5, max_iters=mi)
            Cr, ar, m, it, margin, m2 = lloyd(points, idx, k, 1e-5, mi)
            if margin > 1e-9 and m2 > 1e-9:
                c.eq('centroids of the Lloyd iteration (%d)' % mi, t.centroids, Cr)
                c.eq('assignment of the Lloyd iteration (%d)' % mi, t.assignment, ar)
                c.eq('distortion of the Lloyd iteration (%d)' % mi, t.distortion, m)
                c.eq('iterations (%d)' % mi, t.iterations, it)


K_LOOP = [LoopInv(k_gen, k_check, assume=lambda s, init: [s.iterations <= jnp.maximum(X['maxit'], 0)], match=is_state('centroids', 'assignment', 'distortion', 'prev_distortion', 'iterations'), step=k_step,
                  go=lambda s: jnp.logical_and(s.prev_distortion - s.distortion > X['thresh'], s.iterations < X['maxit']))]
add('k-means from one initialization', f_kmeans_seed, args=[SEED, PTS], dims=NPK, hyps=lambda p: [T.ge(p['k'], 2), T.ge(p['p'], 2), T.gt(p['n'], p['k'])], libs=KLIBS, loops=K_LOOP,
    grid=[(3, 1, 2)], num=[(12, 2, 3), (9, 1, 2), (15, 3, 5), (4, 2, 1)], styles=('normal', 'sparse', 'big', 'small', 'tiny'), samples=5, light=True)


def f_kmeans(c, d, seed, points):
    k = d['k']
    key = jax.random.PRNGKey(seed)
    for R in (1, 4):
        s = km.kmeans(key, points, k, iter=R)
        keys = jax.random.split(key, R)
        runs = [km.kmeans_with_seed(q, points, k) for q in keys]
        dst = np.array([float(r.distortion) for r in runs])
        c.eq('least distortion of all restarts', s.distortion, dst.min())
        a, dist = km.find_assignment(points, s.centroids)
        c.eq('assignment belongs to the centroids', s.assignment, a)
        c.eq('distortion is the mean distance', s.distortion, jnp.mean(dist))
        rr = km.kmeans_with_seed(s.key, points, k)
        c.eq('the reported key reproduces the run', rr.centroids, s.centroids)
        c.eq('iterations of that run', s.iterations, rr.iterations)
    t = km.kmeans(key, points, k, iter=3, max_iters=1)
    c.true('iteration limit', t.iterations <= 1)
    u = km.kmeans_jit(key, points, k, 4, 1e-5, 100)
    c.eq('compiled form', u.distortion, s.distortion)


add('k-means keeps the best restart', f_kmeans, args=[SEED, PTS], dims=NPK, deduce=False, grid=[(12, 2, 3)], num=[(12, 2, 3), (9, 1, 2), (10, 3, 4)], styles=('normal', 'sparse'), samples=2, thorough_samples=6)


# ------------------------------------------------------------------ graph Laplacians
def gen_W(rng, shape, style, env):
    n = shape[0]
    W = rng.uniform(0.1, 2, (n, n)) * (rng.random((n, n)) < (1 if style == 'normal' else 0.6))
    W = W + W.T + 0.05 * np.ones((n, n))
    np.fill_diagonal(W, 0 if style != 'big' else 1.)
    if n == 1:
        W[:] = 1.
    return W


WP = Param('W', ('n', 'n'), pos=True, gen=gen_W)


def f_laplacian(c, d, W):
    n = d['n']
    D = jnp.sum(W, axis=0)
    c.assume(D > 0)
    c.assume(W == W.T)
    L = sp.unnormalized_laplacian(W)
    c.eq('unnormalized Laplacian', L, jnp.where(jnp.eye(n, dtype=bool), D[:, None], 0.) - W)
    c.eq('unnormalized Laplacian annihilates constants', L @ jnp.ones(n), jnp.zeros(n))
    Lr = sp.normalized_random_walk_laplacian(W)
    c.eq('random walk Laplacian', Lr * D[:, None], jnp.where(jnp.eye(n, dtype=bool), D[:, None], 0.) - W)
    c.eq('random walk Laplacian annihilates constants', (Lr * D[:, None]) @ jnp.ones(n), jnp.zeros(n))
    Ws = sp.normalized_symmetric_w(W)
    c.eq('symmetric normalization', Ws * jnp.sqrt(D)[:, None] * jnp.sqrt(D)[None, :], W)
    if c.mode == 'run':
        from jax.experimental.sparse import BCOO
        S = sp.normalized_symmetric_sparse_w(BCOO.fromdense(W))
        c.eq('symmetric normalization of a sparse matrix', S.todense(), Ws)
        c.eq('compiled form', sp.normalized_random_walk_laplacian_jit(W), Lr)


add('graph Laplacians', f_laplacian, args=[WP], dims=('n',), hyps=lambda p: [T.ge(p['n'], 2)], libs=DIAG, grid=[(2,), (3,)], num=[(1,), (5,), (9,)], light=True)


def same_partition(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return len(set(zip(a, b))) == len(set(a)) == len(set(b))


def f_spectral(c, d, seed, sizes):
    """a graph of k connected components (complete, with varying weights): its clusters are the components"""
    k = d['k']
    rng = np.random.default_rng(int(seed))
    sizes = [int(s) for s in np.asarray(sizes)]
    n = sum(sizes)
    lab = np.repeat(np.arange(k), sizes)
    W = np.zeros((n, n))
    same = lab[:, None] == lab[None]
    W[same] = rng.uniform(0.7, 1.3, same.sum())
    W = (W + W.T) / 2
    np.fill_diagonal(W, 0)
    p = rng.permutation(n)
    W, lab = jnp.asarray(W[p][:, p]), lab[p]
    key = jax.random.PRNGKey(seed)
    L = np.diag(np.asarray(W).sum(axis=0)) - np.asarray(W)
    for nm, f in (('unnormalized', sp.unnormalized_k), ('random walk', sp.normalized_random_walk_k), ('unnormalized compiled', sp.unnormalized_k_jit), ('random walk compiled', sp.normalized_random_walk_k_jit)):
        s = f(key, W, k)
        c.static(nm + ': clusters are the components', same_partition(s.assignment, lab), np.asarray(s.assignment))
        c.static(nm + ': number of clusters', int(s.num_clusters) == k)
        if k > 1:
            c.true(nm + ': a disconnected graph has connectivity zero', jnp.abs(s.connectivity) < 1e-9)
        if nm == 'unnormalized':
            c.eq('Laplacian', s.laplancian, L)
            c.eq('singular values', s.singular_values, np.linalg.svd(L)[1])
    if k > 1:
        for nm, f in (('unnormalized', sp.unnormalized), ('random walk', sp.normalized_random_walk)):
            s = f(key, W)
            c.static(nm + ': number of clusters found', int(s.num_clusters) == k, int(s.num_clusters))
            c.static(nm + ': clusters found are the components', same_partition(s.assignment, lab), np.asarray(s.assignment))


add('spectral clustering of a disconnected graph', f_spectral, args=[SEED, Param('sizes', ('k',), 'i', lo=4, hi=7)], dims=('k',), deduce=False, grid=[(2,)], num=[(2,), (3,)], samples=2, thorough_samples=5)


def f_spectral_fast(c, d, seed):
    from jax.experimental.sparse import BCOO
    k = d['k']
    rng = np.random.default_rng(int(seed))
    lab = np.repeat(np.arange(k), 16)
    n = lab.size
    same = lab[:, None] == lab[None]
    W = np.where(same, rng.uniform(0.5, 1.5, (n, n)), rng.uniform(0., 0.004, (n, n)))
    W = (W + W.T) / 2
    np.fill_diagonal(W, 0)
    W = jnp.asarray(W)
    key = jax.random.PRNGKey(seed)
    s = sp.normalized_symmetric_fast_k_jit(key, W, k)
    c.static('dense: clusters are the groups', same_partition(s.assignment, lab), np.asarray(s.assignment))
    t = sp.normalized_symmetric_sparse_fast_k_jit(key, BCOO.fromdense(W), k)
    c.static('sparse: clusters are the groups', same_partition(t.assignment, lab), np.asarray(t.assignment))
    D = np.asarray(W).sum(axis=0) ** -0.5
    sv = np.linalg.svd(D[:, None] * np.asarray(W) * D[None], compute_uv=False)
    c.eq('leading singular values', s.singular_values[:k], sv[:k])


add('fast spectral clustering of separated groups', f_spectral_fast, args=[SEED], dims=('k',), deduce=False, grid=[(2,)], num=[(2,), (3,)], samples=1, thorough_samples=3, tol=1e-4)


# ------------------------------------------------------------------ labels
def f_sizes(c, d, labels):
    k = d['k']
    s = cu.sizes_from_labels(labels, k)
    c.shape('sizes', s, (k,))
    c.eq('number of points of each label', s, jnp.sum(labels[None, :] == jnp.arange(k)[:, None], axis=1))
    c.eq('all points are counted', jnp.sum(s), jnp.asarray(d['n'], dtype=int) if c.mode == 'run' else jnp.sum(jnp.ones_like(labels)))


def f_sizes_run(c, d, labels, sizes):
    k = d['k']
    c.eq('compiled form', cu.sizes_from_labels_jit(labels, k), np.bincount(np.asarray(labels), minlength=k))
    a, b = cu.start_end_indices(sizes)
    cs = np.concatenate(([0], np.cumsum(np.asarray(sizes))))
    c.eq('start indices', a, cs[:-1])
    c.eq('end indices', b, cs[1:])
    lab = cu.labels_from_sizes(sizes)
    c.eq('labels from sizes', lab, np.repeat(np.arange(k), np.asarray(sizes)))
    c.eq('sizes of these labels', cu.sizes_from_labels(lab, k), sizes)


def f_start_end(c, d, sizes):
    a, b = cu.start_end_indices(sizes)
    c.eq('first start', a[0], jnp.zeros((), dtype=int))
    c.eq('blocks are adjacent', a[1:], b[:-1])
    c.eq('block lengths', b - a, sizes)


LAB = Param('labels', ('n',), 'i', lo=0, hi='k')
SZ = Param('sizes', ('k',), 'i', lo=1, hi=6)
add('cluster sizes', f_sizes, args=[LAB], dims=('n', 'k'), hyps=lambda p: [T.ge(p['k'], 2), T.ge(p['n'], 2)], grid=[(2, 2), (3, 2)], num=[(7, 3), (4, 5), (1, 1)], light=True)
add('cluster index ranges', f_start_end, args=[SZ], dims=('k',), sym=False, grid=[(2,), (3,), (5,)], num=[(3,), (6,)])
add('sizes, ranges and labels agree', f_sizes_run, args=[LAB, SZ], dims=('n', 'k'), deduce=False, grid=[(7, 3)], num=[(7, 3), (4, 5), (1, 1), (9, 2)])


def best_matching(t, p):
    """number of mismatches under the best one-to-one relabelling of the predicted clusters"""
    lt, lp = sorted(set(t)), sorted(set(p))
    best = 0
    pad = lt + [None] * max(0, len(lp) - len(lt))
    for perm in itertools.permutations(pad, len(lp)):
        m = dict(zip(lp, perm))
        best = max(best, sum(m[b] == a for a, b in zip(t, p) if m[b] is not None))
    return len(t) - best


def f_error(c, d, t, p, sh):
    t, p = t + sh, p * 2
    tn, pn = [int(v) for v in np.asarray(t)], [int(v) for v in np.asarray(p)]
    n = len(tn)
    e = cu.clustering_error(t, p)
    best = best_matching(tn, pn)
    c.static('number of points missed under the best one-to-one relabelling', int(e.num_missed) == best, '%d, best %d' % (int(e.num_missed), best))
    c.eq('relative error', e.error, best / n)
    c.eq('error in percent', e.error_perc, 100. * best / n)
    m = np.asarray(e.mapped_labels)
    c.static('missed points are those whose mapped label differs', int((m != np.asarray(t)).sum()) == int(e.num_missed))
    pairs = {}
    for a, b in zip(pn, m):
        pairs.setdefault(a, set()).add(int(b))
    c.static('each predicted cluster gets one label', all(len(v) == 1 for v in pairs.values()))
    used = [next(iter(v)) for v in pairs.values() if next(iter(v)) in set(tn)]
    c.static('no two predicted clusters share a true label', len(used) == len(set(used)), pairs)


def f_error_k(c, d, t, p):
    k = d['k']
    tn, pn = [int(v) for v in np.asarray(t)], [int(v) for v in np.asarray(p)]
    e = cu.clustering_error_k(t, p, k)
    G = np.zeros((k, k), dtype=int)
    for a, b in zip(tn, pn):
        G[a, b] += 1
    best = len(tn) - max(sum(G[i, q[i]] for i in range(k)) for q in itertools.permutations(range(k)))
    c.static('number of points missed under the best one-to-one relabelling', int(e.num_missed) == best, '%d, best %d' % (int(e.num_missed), best))
    c.eq('relative error', e.error, best / len(tn))
    c.eq('error in percent', e.error_perc, 100. * best / len(tn))
    ml, mp, H = cu.best_map_k(t, p, k)
    c.eq('confusion matrix', H, G)
    c.static('mapping is a permutation', sorted(int(v) for v in mp) == list(range(k)))
    c.eq('mapped labels', ml, np.array([list(np.asarray(mp)).index(b) for b in pn]))


TL = Param('t', ('n',), 'i', lo=0, hi='kt')
PL = Param('q', ('n',), 'i', lo=0, hi='kp')
add('clustering error', f_error, args=[TL, PL, Param('shift', (), 'i', lo=0, hi=4)], dims=('n', 'kt', 'kp'), deduce=False, grid=[(6, 2, 2)],
    num=[(8, 3, 3), (7, 2, 3), (7, 3, 2), (9, 4, 2), (9, 2, 4), (5, 1, 2), (5, 2, 1), (1, 1, 1)], samples=6, thorough_samples=25)
add('clustering error, given number of clusters', f_error_k, args=[Param('t', ('n',), 'i', lo=0, hi='k'), Param('q', ('n',), 'i', lo=0, hi='k')], dims=('n', 'k'), deduce=False, grid=[(6, 2)],
    num=[(8, 3), (7, 2), (9, 4), (3, 1)], samples=5, thorough_samples=20)


# ------------------------------------------------------------------ sparse subspace clustering
def f_rep(c, d, Z, I):
    n, k = d['n'], d['k']
    F = su.sparse_to_full_rep(Z, I)
    c.shape('full representation', F, (n, n))
    ref = np.zeros((n, n))
    for j in range(n):
        for a in range(k):
            ref[int(I[a, j]), j] += float(Z[a, j])
    c.eq('coefficients in their places', F, ref)
    B = su.sparse_to_bcoo(Z, I)
    c.eq('sparse matrix form', B.todense(), ref)
    Z2, I2 = su.bcoo_to_sparse(B, k)
    c.eq('values come back', Z2, Z)
    c.eq('indices come back', I2, I)
    Z3, I3 = su.bcoo_to_sparse_jit(B, k)
    c.eq('compiled: values come back', Z3, Z)
    c.eq('compiled: indices come back', I3, I)
    c.eq('affinity', su.rep_to_affinity(F), np.abs(ref) + np.abs(ref).T)
    c.eq('affinity of the sparse form', su.rep_to_affinity(B).todense(), np.abs(ref) + np.abs(ref).T)


def gen_I(rng, shape, style, env):
    k, n = shape
    I = np.zeros(shape, dtype=np.int64)
    for j in range(n):
        I[:, j] = rng.permutation([i for i in range(n) if i != j])[:k]
    return I


def f_affinity(c, d, Z):
    A = su.rep_to_affinity(Z)
    c.eq('affinity', A, jnp.abs(Z) + jnp.abs(Z.T))
    c.eq('symmetric', A, A.T)
    c.true('nonnegative', A >= 0)


KN = ('n', 'k')
add('sparse representations as matrices', f_rep, args=[Param('Z', ('k', 'n'), gen=lambda rng, shape, style, env: rng.standard_normal(shape) + np.sign(rng.standard_normal(shape))), Param('I', ('k', 'n'), 'i', gen=gen_I)], dims=KN, deduce=False, grid=[(4, 2)],
    num=[(4, 2), (6, 1), (5, 4)], samples=3)
add('affinity matrix', f_affinity, args=[Param('Z', ('n', 'n'))], dims=('n',), grid=[(2,), (3,)], num=[(2,), (6,)], hyps=lambda p: [T.ge(p['n'], 2)])


def gen_X(rng, shape, style, env):
    v = rng.standard_normal(shape)
    if style == 'int':
        v = rng.integers(-2, 3, shape) + 0.
        v[0] += (np.abs(v).sum(axis=0) == 0)
    if style == 'ones' and shape[1] > 1:
        v[:, -1] = -3. * v[:, 0]
        v[:, shape[1] // 2] = 2. * v[:, 0]
    return v * {'big': 30.}.get(style, 1.)


def f_angles(c, d, Xm):
    A = su.angles_between_points(Xm)
    Xn = np.asarray(Xm) / np.linalg.norm(np.asarray(Xm), axis=0)
    ref = np.degrees(np.arccos(np.clip(Xn.T @ Xn, -1, 1)))
    c.shape('angles', A, (d['n'], d['n']))
    c.true('angles are numbers between 0 and 180', jnp.logical_and(A >= 0, A <= 180 + 1e-6))
    c.true('angles in degrees', jnp.abs(jnp.cos(jnp.deg2rad(A)) - jnp.clip(Xn.T @ Xn, -1, 1)) < 1e-9)
    for q in range(60):
        v = np.random.default_rng(q).standard_normal(3)
        P = su.angles_between_points(jnp.asarray(np.stack((v, -v, 2.5 * v), axis=1)))
        c.true('opposite and parallel points', jnp.max(jnp.abs(P - jnp.array([[0, 180, 0], [180, 0, 180], [0, 180, 0.]]))) < 1e-4)


add('angles between points', f_angles, args=[Param('X', ('m', 'n'), gen=gen_X)], dims=('m', 'n'), deduce=False, grid=[(3, 4)], num=[(3, 4), (2, 6), (5, 3), (1, 3)], styles=('normal', 'int', 'ones', 'big'))


def gen_angles(rng, shape, style, env):
    A = rng.uniform(1, 179, shape)
    A = (A + A.T) / 2
    np.fill_diagonal(A, 0)
    return A


def f_neighbours(c, d, A, perm):
    n = d['n']
    A_ = np.asarray(A)
    rng = np.random.default_rng(int(abs(A_[0, -1]) * 1000))
    k = d['k']
    sizes = [2 + int(v) for v in rng.multinomial(n - 2 * k, np.ones(k) / k)]
    lab = np.repeat(np.arange(k), sizes)
    sz = jnp.asarray(sizes)
    inside = (lab[:, None] == lab[None]) & ~np.eye(n, dtype=bool)
    outside = lab[:, None] != lab[None]
    Ain, Aout = np.where(inside, A_, 1e9), np.where(outside, A_, 1e9)
    c.eq('smallest angle within the cluster', su.min_angles_inside_cluster(A, sz), Ain.min(axis=1))
    c.eq('nearest neighbour within the cluster', su.nearest_neighbors_inside_cluster(A, sz), Ain.argmin(axis=1))
    if k > 1:
        c.eq('smallest angle to other clusters', su.min_angles_outside_cluster(A, sz), Aout.min(axis=1))
        c.eq('nearest neighbour in other clusters', su.nearest_neighbors_outside_cluster(A, sz), Aout.argmin(axis=1))
    S = su.sorted_neighbors(A)
    c.shape('sorted neighbours', S, (n, n - 1))
    B = np.where(np.eye(n, dtype=bool), -1., A_)
    c.eq('neighbours by increasing angle', S, np.argsort(B, axis=1)[:, 1:])
    sl = jnp.asarray(lab)[S]
    pos = su.inn_positions(jnp.asarray(lab), sl)
    ref = [int(np.argmax(np.asarray(sl)[i] == lab[i])) for i in range(n)]
    c.eq('position of the first neighbour of the own cluster', pos, np.array(ref))


add('angles and neighbours of clustered points', f_neighbours, args=[Param('A', ('n', 'n'), gen=gen_angles), Param('P', ('n',), 'i', lo=0, hi='n', distinct=True)], dims=('n', 'k'), deduce=False, grid=[(7, 2)],
    num=[(7, 2), (9, 3), (4, 2), (5, 1)], samples=3)


def f_spr(c, d, C, labels):
    n = d['n']
    C_, lab = np.abs(np.asarray(C)), np.asarray(labels)
    same = lab[:, None] == lab[None]
    bad = (C_ >= 1e-3) & ~same
    flags = ~bad.any(axis=0)
    err = 1 - np.where(same, C_, 0).sum(axis=0) / C_.sum(axis=0)
    for nm, f in (('', su.subspace_preservation_stats), ('compiled ', su.subspace_preservation_stats_jit)):
        s = f(C, labels)
        c.eq(nm + 'points represented by their own subspace', s.spr_flags, flags)
        c.eq(nm + 'share of weight outside the subspace', s.spr_errors, err)
        c.eq(nm + 'mean error', s.spr_error, err.mean())
        c.eq(nm + 'all preserved', s.spr_flag, flags.all())
        c.eq(nm + 'percentage preserved', s.spr_perc, 100. * flags.mean())


def f_spr_sparse(c, d, Z, I, labels):
    n, k = d['n'], d['k']
    ref = np.zeros((n, n))
    for j in range(n):
        for a in range(k):
            ref[int(I[a, j]), j] += float(Z[a, j])
    s = su.subspace_preservation_stats(jnp.asarray(ref), labels)
    for nm, f in (('', su.sparse_subspace_preservation_stats), ('compiled ', su.sparse_subspace_preservation_stats_jit)):
        t = f(Z, I, labels)
        for fld in s._fields:
            c.eq(nm + 'agrees with the dense statistics: ' + fld, getattr(t, fld), getattr(s, fld))


def f_spr_ded(c, d, C, labels):
    """all sizes: the error is the share of absolute weight outside, the flag says no large outside weight"""
    n = d['n']
    A = jnp.abs(C)
    tot = jnp.sum(A, axis=0)
    c.assume(tot > 0)
    s = su.subspace_preservation_stats(C, labels)
    same = labels[:, None] == labels[None, :]
    c.eq('share of weight outside the subspace', s.spr_errors * tot, jnp.sum(jnp.where(same, 0., A), axis=0))


GZ = Param('Z', ('k', 'n'), gen=lambda rng, shape, style, env: (rng.uniform(0.1, 2, shape)) * np.sign(rng.standard_normal(shape)) * {'big': 30.}.get(style, 1.))
add('subspace preservation', f_spr, args=[Param('C', ('n', 'n'), gen=lambda rng, shape, style, env: rng.standard_normal(shape) * (rng.random(shape) < {'sparse': .3, 'int': .5}.get(style, 1)) + 1e-4 * rng.standard_normal(shape)), Param('labels', ('n',), 'i', lo=0, hi='k')],
    dims=('n', 'k'), deduce=False, grid=[(4, 2)], num=[(4, 2), (7, 3), (3, 1)], styles=('sparse', 'normal', 'int'), samples=4)
add('subspace preservation from sparse representations', f_spr_sparse, args=[GZ, Param('I', ('k', 'n'), 'i', gen=gen_I), Param('labels', ('n',), 'i', lo=0, hi=3)], dims=('n', 'k'), deduce=False, grid=[(4, 2)],
    num=[(4, 2), (7, 3), (3, 1)], styles=('normal', 'big'))
add('subspace preservation, deduced', f_spr_ded, args=[Param('C', ('n', 'n')), Param('labels', ('n',), 'i', lo=0, hi=3)], dims=('n',), hyps=lambda p: [T.ge(p['n'], 2)], grid=[(2,), (3,)], num=[(4,), (6,)], light=True)


def gen_unit(rng, shape, style, env):
    v = rng.standard_normal(shape)
    return v / np.linalg.norm(v, axis=0)


def f_omp(c, d, Xm):
    m, n, K = d['m'], d['n'], d['K']
    Xr = np.asarray(Xm)
    Xn = Xr / np.linalg.norm(Xr, axis=0)
    forms = [('', so.build_representation_omp(Xm, K)), ('compiled ', so.build_representation_omp_jit(Xm, K))]
    if d['unit']:
        for b in sorted({1, 2, 3, n, n + 2}):
            forms.append(('batches of %d ' % b, so.batch_build_representation_omp(Xm, K, b)))
        forms.append(('compiled batches ', so.batch_build_representation_omp_jit(Xm, K, 2)))
    for j in range(n):
        I, r = [], Xn[:, j]
        for k in range(K):
            h = np.abs(Xn.T @ r)
            h[j] = 0
            o = np.sort(h)[::-1]
            if o[0] - o[1] < 1e-9 * (1 + o[0]) or o[0] < 1e-9:
                raise SkipSample()
            I.append(int(h.argmax()))
            z = np.linalg.lstsq(Xn[:, I], Xr[:, j], rcond=None)[0]
            r = Xr[:, j] - Xn[:, I] @ z
        for nm, (Z, II, R) in forms:
            c.static(nm + 'does not use the point itself', j not in [int(v) for v in II[:, j]])
            c.eq(nm + 'points selected by orthogonal matching pursuit', II[:, j], np.array(I))
            c.eq(nm + 'least squares coefficients', Z[:, j], z)
            c.eq(nm + 'residual', R[:, j], r)
            c.eq(nm + 'residual orthogonal to the selected points', Xn[:, I].T @ R[:, j], np.zeros(K))


MNK = ('m', 'n', 'K', 'unit')
add('self-expressive representations by OMP', f_omp, args=[Param('X', ('m', 'n'), gen=gen_unit)], dims=MNK, deduce=False, grid=[(4, 7, 2, 1)], num=[(4, 7, 2, 1), (3, 5, 1, 1), (5, 9, 3, 1)], samples=2, thorough_samples=6)
add('self-expressive representations of unnormalized points', f_omp, args=[Param('X', ('m', 'n'), gen=lambda rng, shape, style, env: rng.standard_normal(shape) * rng.uniform(.3, 4, shape[1]))], dims=MNK, deduce=False, grid=[(4, 7, 2, 0)],
    num=[(4, 7, 2, 0), (3, 5, 1, 0), (5, 9, 3, 0)], samples=2, thorough_samples=6)
