"""C18 dictionaries and sensing matrices: constructors, and the quantities computed from a dictionary."""
import jax
import jax.numpy as jnp
import numpy as np
import math
import cr.sparse.dict as crdict
from cr.sparse._src.dict import simple, props, comparison, grass
from vf.contract import Contract, Param
from vf import terms as T, loops
from c16_cvx import Math
from c17_data import qr_stub, SEED

CONTRACTS = {k: [] for k in ('C18', 'C05')}
SHIM = loops.Random()
LIBS = ([(simple, 'random', SHIM)] if hasattr(simple, 'random') else []) + ([(simple, 'math', Math())] if hasattr(simple, 'math') else []) \
    + [(jnp.linalg, 'qr', qr_stub)]


def add(name, fn, **kw):
    CONTRACTS['C18'].append(Contract(name, fn, **kw))


def key_of(c, seed):
    SHIM.draws.clear()
    return SHIM.PRNGKey(seed) if c.mode == 'trace' else jax.random.PRNGKey(seed)


def cols_unit(c, A):
    c.eq('atoms of unit norm', jnp.sum(A * A, axis=0), jnp.ones(A.shape[1]))


# ------------------------------------------------------------------ random sensing matrices
def f_gaussian(norm):
    def fn(c, d, seed):
        M, N = d['M'], d['N']
        A = simple.gaussian_mtx(key_of(c, seed), M, N) if norm else simple.gaussian_mtx(key_of(c, seed), M, N, normalize_atoms=False)
        c.shape('matrix', A, (M, N))
        if c.mode == 'trace':
            v = SHIM.draws[0][1]
            c.assume(jnp.sum(v * v, axis=0) > 0)
            if norm:
                cols_unit(c, A)
            elif v.shape[0] == M and v.shape[1] == N:
                c.eq('entries are standard normals over sqrt(M)', A * Math.sqrt(M), v)
        else:
            if norm:
                cols_unit(c, A)
            c.true('entries differ', jnp.abs(A[0, 0] - A[-1, -1]) > 0)
            if M * N > 500:
                r = np.asarray(A).ravel() * math.sqrt(M)
                n = r.size
                c.true('zero mean', abs(r.mean()) < 6 / math.sqrt(n))
                c.true('unit variance after scaling', abs((r ** 2).mean() - 1) < 8 / math.sqrt(n))
                c.true('normal fourth moment', abs((r ** 4).mean() - 3) < 80 / math.sqrt(n))
    return fn


def f_rademacher(norm):
    def fn(c, d, seed):
        M, N = d['M'], d['N']
        A = simple.rademacher_mtx(key_of(c, seed), M, N) if norm else simple.rademacher_mtx(key_of(c, seed), M, N, normalize_atoms=False)
        c.shape('matrix', A, (M, N))
        if norm:
            c.eq('entries plus or minus 1/sqrt(M)', A * A * M, jnp.ones((M, N)))
            cols_unit(c, A)
        else:
            c.eq('entries plus or minus one', A * A, jnp.ones((M, N)))
        if c.mode == 'run' and M * N > 500:
            c.true('both signs, equally likely', abs(float(jnp.mean(jnp.sign(A)))) < 6 / math.sqrt(M * N))
    return fn


for norm in (True, False):
    add('Gaussian matrix, %s' % ('unit atoms' if norm else 'scaled'), f_gaussian(norm), args=[SEED], dims=('M', 'N'), libs=LIBS, hyps=lambda p: [T.ge(p['M'], 2)],
        grid=[(2, 2), (3, 2), (2, 3)], num=[(2, 3), (9, 4), (40, 60)])
    add('Rademacher matrix, %s' % ('unit atoms' if norm else 'unscaled'), f_rademacher(norm), args=[SEED], dims=('M', 'N'), libs=LIBS,
        grid=[(1, 1), (2, 2), (3, 2), (2, 3)], num=[(1, 3), (9, 4), (40, 60)])


def f_sparse_binary(norm, dense):
    def fn(c, d, seed):
        M, N, k = d['M'], d['N'], d['d']
        A = simple.sparse_binary_mtx(key_of(c, seed), M, N, k, normalize_atoms=norm, dense=dense)
        if not dense:
            c.static('is sparse', hasattr(A, 'todense'), type(A))
            A = A.todense()
        c.shape('matrix', A, (M, N))
        B = A * Math.sqrt(k) if norm else A.astype(float)
        c.eq('entries zero or one', B * B, B)
        c.eq('exactly d ones in a column', jnp.sum(B, axis=0), jnp.full((N,), 1.) * k)
        if c.mode == 'run' and N > 30:
            c.static('the columns are drawn separately', len({tuple(np.asarray(b) > 0) for b in A.T}) > 1)
            c.true('all rows are used', jnp.min(jnp.sum(A != 0, axis=1)) > 0)
    return fn


for norm in (True, False):
    for dense in (True, False):
        add('sparse binary matrix%s%s' % (', unit atoms' if norm else '', ', dense' if dense else ''), f_sparse_binary(norm, dense), args=[SEED], dims=('M', 'N', 'd'), libs=LIBS,
            deduce=dense, hyps=lambda p: [T.le(p['d'], p['M']), T.ge(p['d'], 2), T.ge(p['N'], 2)], grid=[(3, 2, 2), (2, 2, 1), (2, 1, 2)], num=[(8, 5, 3), (4, 4, 4), (5, 60, 1), (16, 90, 6)], samples=2)


def f_onb(kind):
    def fn(c, d, seed):
        N = d['N']
        M = d.get('M', N)
        A = simple.random_onb(key_of(c, seed), N) if kind == 'onb' else simple.random_orthonormal_rows(key_of(c, seed), M, N)
        c.shape('matrix', A, (M, N))
        if kind == 'onb':
            c.eq('orthonormal columns', A.T @ A, jnp.eye(N))
            if c.mode == 'run':
                c.eq('orthonormal rows', A @ A.T, jnp.eye(N))
        else:
            c.eq('orthonormal rows', A @ A.T, jnp.eye(M))
    return fn


add('random orthonormal basis', f_onb('onb'), args=[SEED], dims=('N',), libs=LIBS, grid=[(1,), (2,), (3,)], num=[(1,), (5,), (24,)])
add('random orthonormal rows', f_onb('rows'), args=[SEED], dims=('M', 'N'), libs=LIBS, hyps=lambda p: [T.le(p['M'], p['N']), T.ge(p['N'], 2)], grid=[(1, 2), (2, 2), (2, 3)],
    num=[(1, 3), (4, 7), (6, 6), (10, 31)])


# ------------------------------------------------------------------ structured bases
def hada(n):
    H = np.array([[1]])
    while H.shape[0] < n:
        H = np.block([[H, H], [H, -H]])
    return H


def dctm(n):
    k, i = np.mgrid[:n, :n]
    D = np.cos(np.pi * k * (2 * i + 1) / (2 * n)) * np.sqrt(2. / n)
    D[0] /= np.sqrt(2.)
    return D


def f_structured(c, d):
    n = d['n']
    pow2 = n & (n - 1) == 0
    C = simple.cosine_basis(n)
    c.eq('cosine basis: orthonormal type II DCT', C, dctm(n))
    c.eq('cosine basis orthonormal', C.T @ C, jnp.eye(n))
    c.eq('Dirac cosine', simple.dirac_cosine_basis(n), np.hstack((np.eye(n), dctm(n))))
    F = simple.fourier_basis(n)
    k, i = np.mgrid[:n, :n]
    c.eq('Fourier basis: columns are unit norm harmonics', F, np.exp(2j * np.pi * k * i / n) / np.sqrt(n))
    c.eq('Fourier basis unitary', F.conj().T @ F, jnp.eye(n))
    if pow2:
        H = simple.hadamard(n)
        c.eq('Hadamard matrix (Sylvester)', H, hada(n))
        c.eq('Hadamard rows orthogonal', H @ H.T, n * jnp.eye(n))
        c.eq('Hadamard basis', simple.hadamard_basis(n), hada(n) / math.sqrt(n))
        c.eq('Dirac Hadamard', simple.dirac_hadamard_basis(n), np.hstack((np.eye(n), hada(n) / math.sqrt(n))))
        c.eq('Dirac Hadamard cosine', simple.dirac_hadamard_cosine_basis(n), np.hstack((np.eye(n), hada(n) / math.sqrt(n), dctm(n))))
    else:
        try:
            simple.hadamard(n)
            c.static('Hadamard rejects sizes that are no power of two', False, n)
        except AssertionError:
            pass


add('cosine, Fourier and Hadamard bases', f_structured, dims=('n',), sym=False, grid=[(1,), (2,), (3,), (4,), (5,), (6,), (8,)], num=[(1,), (2,), (3,), (4,), (5,), (6,), (7,), (8,), (12,), (16,), (31,), (32,), (64,)], samples=1, tol=3e-6)


def f_wavelet(name, orth):
    def fn(c, d):
        import cr.wavelets as wt
        n = d['n']
        w = wt.to_wavelet(name)
        top = wt.dwt_max_level(n, w.dec_len)
        for level in [None] + list(range(0, top + 1)):
            W = simple.wavelet_basis(n, name) if level is None else simple.wavelet_basis(n, name, level)
            c.shape('basis', W, (n, n))
            if orth:
                c.eq('orthonormal, level %s' % level, W.T @ W, jnp.eye(n))
            L = top if level is None else level
            # column j is the reconstruction from coefficient j: analysis of the columns gives the identity
            cols = []
            for j in range(n):
                a = jnp.asarray(W[:, j])
                parts = []
                for _ in range(L):
                    a, dd = wt.dwt(a, name, 'periodization')
                    parts.insert(0, dd)
                cols.append(jnp.concatenate([a] + parts))
            c.eq('column j has the single wavelet coefficient j, level %s' % level, jnp.stack(cols, axis=1), jnp.eye(n))
        try:
            simple.wavelet_basis(n, name, top + 1)
            c.static('too deep a level is rejected', False)
        except AssertionError:
            pass
        try:
            simple.wavelet_basis(n * 3, name)
            c.static('sizes that are no power of two are rejected', False)
        except AssertionError:
            pass
    return fn


for nm, orth in (('haar', True), ('db2', True), ('sym3', True), ('bior2.2', False)):
    add('wavelet basis ' + nm, f_wavelet(nm, orth), dims=('n',), sym=False, grid=[(4,), (8,)] if nm == 'haar' else [(8,)], num=[(4,), (8,), (16,)] if nm == 'haar' else [(8,), (16,)], samples=1)


# ------------------------------------------------------------------ properties of a dictionary
def herm(A):
    return jnp.conj(A.T)


def f_gram(c, d, A):
    c.eq('Gram matrix', props.gram(A), herm(A) @ A)
    c.eq('frame matrix', props.frame(A), A @ herm(A))


def unit(A):
    return A / jnp.sqrt(jnp.sum(jnp.abs(A) ** 2, axis=0))


def cabs(G):
    """|G| as the code under contract computes it"""
    return jnp.abs(G)


def f_coherence(cplx):
    def fn(c, d, A):
        m, n = d['m'], d['n']
        G = cabs(herm(A) @ A)
        off = jnp.where(jnp.eye(n, dtype=bool), 0., G)
        mu, ix = props.coherence_with_index(A)
        i, j = ix
        c.true('indices in range', jnp.logical_and(jnp.logical_and(i >= 0, i < n), jnp.logical_and(j >= 0, j < n)))
        c.true('no other pair of atoms is more correlated', off.ravel() <= mu * (1 + (1e-12 if c.mode == 'run' else 0)))
        c.eq('attained by the reported pair', off[i, j], mu)
        if c.mode == 'run':
            c.eq('coherence', props.coherence(A), mu)
            B = unit(A)
            c.le('unit atoms: at most one', props.coherence(B), 1 + 1e-9)
            if n > m:
                c.le('unit atoms: at least the Welch bound', grass.minimum_coherence(m, n), props.coherence(B) + 1e-9)
        else:
            c.eq('coherence', props.coherence(A), mu)
    return fn


def f_mutual(c, d, A, B):
    G = cabs(herm(A) @ B)
    mu, ix = props.mutual_coherence_with_index(A, B)
    i, j = ix
    c.true('no other pair of atoms is more correlated', G.ravel() <= mu * (1 + (1e-12 if c.mode == 'run' else 0)))
    c.eq('attained by the reported pair', G[i, j], mu)
    c.eq('mutual coherence', props.mutual_coherence(A, B), mu)


def gen_nz(rng, shape, style, env):
    A = rng.standard_normal(shape) * {'big': 9., 'small': 0.1}.get(style, 1.)
    if style == 'int':
        A = rng.integers(-2, 3, shape) + 0.
        A[0] += (np.abs(A).sum(axis=0) == 0)
    if style == 'ones':
        A[:, -1] = A[:, 0]
    return A


def gen_nzc(rng, shape, style, env):
    A = gen_nz(rng, shape, style, env)
    B = gen_nz(rng, shape, 'int' if style == 'int' else 'normal', env)
    A = A + 1j * B
    if style == 'ones':
        A[:, -1] = 1j * A[:, 0]
    return A


for k, gen in (('f', gen_nz), ('c', gen_nzc)):
    cn = 'complex' if k == 'c' else 'real'
    A, B = Param('A', ('m', 'n'), k, gen=gen), Param('B', ('m', 'p'), k, gen=gen)
    st = ('normal', 'int', 'ones', 'big')
    add('Gram and frame matrices, ' + cn, f_gram, args=[A], dims=('m', 'n'), num=[(3, 5), (4, 2)], styles=st)
    add('coherence, ' + cn, light=True, fn=f_coherence(k == 'c'), args=[A], dims=('m', 'n'), hyps=lambda p: [T.ge(p['n'], 2), T.ge(p['m'], 2)], grid=[(1, 2), (2, 2), (2, 3)] if k == 'f' else [(1, 2), (2, 2)],
        num=[(3, 5), (4, 2), (5, 12), (1, 2)], styles=st, libs=[(jnp, 'diag_indices', lambda n, ndim=2: (jnp.arange(n),) * ndim)])
    add('mutual coherence, ' + cn, light=True, fn=f_mutual, args=[A, B], dims=('m', 'n', 'p'), hyps=lambda p: [T.ge(p['n'], 2), T.ge(p['m'], 2), T.ge(p['p'], 2)],
        grid=[(2, 2, 2), (1, 2, 2)] if k == 'f' else [(1, 2, 2)], num=[(3, 5, 4), (4, 2, 1), (5, 1, 7)], styles=st)


def f_babel(c, d, A):
    m, n = d['m'], d['n']
    A = unit(A)
    b = props.babel(A)
    c.shape('values', b, (n - 1,))
    G = np.abs(np.asarray(herm(A) @ A))
    np.fill_diagonal(G, 0)
    ref = [max(np.sort(G[i])[::-1][:k].sum() for i in range(n)) for k in range(1, n)]
    c.eq('largest total correlation of an atom with k others', b, np.array(ref))
    c.eq('first value is the coherence', b[0], props.coherence(A))
    c.true('nondecreasing', b[1:] >= b[:-1] - 1e-12)
    c.true('at most k times the coherence', b <= np.arange(1, n) * float(props.coherence(A)) + 1e-9)


def f_babel_ded(c, d, A):
    """two or three atoms: the value at k is the largest sum of k correlations with other atoms"""
    n = d['n']
    U = A
    G = jnp.abs(U.T @ U)
    c.assume(jnp.diag(G)[:, None] >= G)       # unit atoms: no correlation exceeds the self correlation
    b = props.babel(U)
    off = jnp.where(jnp.eye(n, dtype=bool), 0., G)
    c.eq('k = 1', b[0], jnp.max(off))
    c.eq('k = n - 1', b[n - 2], jnp.max(jnp.sum(off, axis=1)))


for k, gen in (('f', gen_nz), ('c', gen_nzc)):
    add('babel function, ' + ('complex' if k == 'c' else 'real'), f_babel, args=[Param('A', ('m', 'n'), k, gen=gen)], dims=('m', 'n'), deduce=False, grid=[(3, 5)],
        num=[(3, 5), (4, 2), (5, 12), (2, 9)], styles=('normal', 'int', 'ones', 'big'))
add('babel function, deduced', f_babel_ded, args=[Param('A', ('m', 'n'), gen=lambda rng, shape, style, env: np.asarray(unit(gen_nz(rng, shape, style, env))))], dims=('m', 'n'),
    sym=False, grid=[(1, 2), (2, 2), (2, 3)], num=[(3, 3), (2, 2)], styles=('normal', 'big'))


def f_bounds(c, d, A):
    m, n = d['m'], d['n']
    s = np.linalg.svd(np.asarray(A), compute_uv=False)
    b = props.frame_bounds(A)
    c.eq('largest and smallest singular value', b, np.array([s.max(), s.min()]))
    c.eq('upper bound', props.upper_frame_bound(A), s.max())
    c.eq('lower bound', props.lower_frame_bound(A), s.min())
    ev = np.linalg.eigvalsh(np.asarray(props.gram(A) if n <= m else props.frame(A)))
    c.eq('squares are the extreme eigenvalues', np.array([s.max() ** 2, s.min() ** 2]), np.array([ev.max(), ev.min()]))


def f_match(c, d, A, P):
    """B holds the atoms of A permuted, with unimodular factors; all match"""
    n = d['n']
    A = unit(A)
    sg = jnp.where(jnp.arange(n) % 2 == 0, 1., -1.)
    if jnp.iscomplexobj(A):
        sg = jnp.exp(1j * (0.3 + jnp.arange(n)))
    B = (A * sg)[:, P]
    c.eq('a dictionary matches its permuted, rephased self', crdict.matching_atoms_ratio(A, B), 1.)
    for th in (0.01, 0.2, 0.5):
        C = jnp.concatenate((B[:, :1], A[:, ::-1][:, : max(1, n // 2)] + 0.3), axis=1)
        C = unit(C)
        S = np.abs(np.asarray(herm(A) @ C)).max(axis=1)
        if np.min(np.abs(1 - S - th)) > 1e-9:
            c.eq('fraction of atoms of A with a close atom', crdict.matching_atoms_ratio(A, C, th), np.mean(1 - S < th))


for k, gen in (('f', gen_nz), ('c', gen_nzc)):
    cn = 'complex' if k == 'c' else 'real'
    A = Param('A', ('m', 'n'), k, gen=gen)
    add('frame bounds, ' + cn, f_bounds, args=[A], dims=('m', 'n'), deduce=False, grid=[(3, 5)], num=[(3, 5), (4, 2), (5, 5), (1, 3)], styles=('normal', 'int', 'big'))
    add('matching atoms, ' + cn, f_match, args=[A, Param('P', ('n',), 'i', lo=0, hi='n', distinct=True)], dims=('m', 'n'), deduce=False, grid=[(3, 5)], num=[(3, 5), (4, 2), (5, 7)],
        styles=('normal', 'big', 'small'))


# ------------------------------------------------------------------ Grassmannian frames
def f_welch(c, d):
    for m in range(1, 9):
        for n in range(m, 15):
            if n > 1:
                c.eq('Welch bound', grass.minimum_coherence(m, n), math.sqrt((n - m) / (m * (n - 1.))))


def ref_grass(A, frac, shrink, iters):
    m, n = A.shape
    G = A.T @ A
    off = np.abs(G - 1) > 1e-6
    N = n * n - n
    for _ in range(iters):
        a = np.sort(np.abs(G).ravel())
        up, lo = a[round(frac * N) - 1], a[round((1 - frac) * N) - 1]
        H = np.where((np.abs(G) > up) & off, G * shrink, G)
        H = np.where(np.abs(G) < lo, H / shrink, H)
        U, s, V = np.linalg.svd(H)
        s[m:] = 0
        G = (U * s) @ V
        dd = 1 / np.sqrt(np.diag(G))
        G = dd[:, None] * G * dd[None, :]
    return G


def f_grass(c, d, A):
    m, n = d['m'], d['n']
    A = unit(A)
    for kw in (dict(iterations=1), dict(frac=0.8, shrink_mu=0.85, iterations=2), dict(iterations=4), {}):
        Fm = grass.build_grassmannian_frame(A, **kw)
        c.shape('frame', Fm, (m, n))
        ref = ref_grass(np.asarray(A), kw.get('frac', 0.9), kw.get('shrink_mu', 0.9), kw.get('iterations', 25))
        if np.linalg.eigvalsh((ref + ref.T) / 2)[0] < -1e-9:
            continue                                  # an indefinite iterate is no Gram matrix
        c.eq('atoms of unit norm', jnp.sum(Fm * Fm, axis=0), jnp.ones(n))
        if kw:
            c.eq('Gram matrix of the documented iteration', Fm.T @ Fm, ref)
        mu = crdict.coherence(Fm)
        c.le('Welch bound', grass.minimum_coherence(m, n), mu)


add('Welch bound formula', f_welch, grid=[{}], num=[{}], samples=1)
add('Grassmannian frame construction', f_grass, args=[Param('A', ('m', 'n'), gen=lambda rng, shape, style, env: rng.standard_normal(shape))], dims=('m', 'n'), deduce=False, grid=[(4, 8)],
    num=[(4, 8), (5, 9), (8, 20)], samples=2, thorough_samples=4)


# ------------------------------------------------------------------ C05: the operators of the random orthonormal matrices
def onb_stub(key, N, *a, **k):
    """contract of random_onb (C18): an orthogonal matrix"""
    Q = loops.havoc_shape((N, N), jnp.float64, 'Q')
    loops.assume(Q.T @ Q == jnp.eye(N))
    loops.assume(Q @ Q.T == jnp.eye(N))
    return Q


def rows_stub(key, M, N=None, *a, **k):
    """contract of random_orthonormal_rows (C18)"""
    N = M if N is None else N
    Q = loops.havoc_shape((M, N), jnp.float64, 'Q')
    loops.assume(Q @ Q.T == jnp.eye(M))
    return Q


from cr.sparse import lop


def f_onb_op(kind):
    def fn(c, d, seed):
        n = d['n']
        k = key_of(c, seed) if c.mode == 'trace' else jax.random.PRNGKey(seed)
        I = jnp.eye(n)
        if kind == 'onb':
            op = lop.random_onb_dict(k, n)
            c.eq('trans(times(x)) = x', op.trans(op.times(I)), I)
        else:
            op = lop.random_orthonormal_rows_dict(k, n, n + 2)
        c.eq('times(trans(y)) = y', op.times(op.trans(I)), I)
        if kind == 'rows' and c.mode != 'trace':
            sq = lop.random_orthonormal_rows_dict(k, n)
            c.static('square by default', tuple(sq.shape) == (n, n), sq.shape)
            c.eq('square: trans(times(x)) = x', sq.trans(sq.times(I)), I)
            c.eq('square: times(trans(y)) = y', sq.times(sq.trans(I)), I)
    return fn


for kind, nm in (('onb', 'random_onb_dict'), ('rows', 'random_orthonormal_rows_dict')):
    CONTRACTS['C05'].append(Contract(nm, f_onb_op(kind), args=[SEED], dims=('n',), libs=[(crdict, 'random_onb', onb_stub), (crdict, 'random_orthonormal_rows', rows_stub)],
                                     grid=[1, 2, 3], num=[1, 2, 5, 8], tol=1e-5, targets=('lop.' + nm,)))
