"""C01: every operator constructor returns an operator whose trans is the adjoint of times."""
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse import lop
from vf.contract import Param
from vf.linop import LinOp
from vf import terms as T

C = []


def add(name, make, **k):
    k.setdefault('targets', ('lop.' + name.split('[')[0],))
    C.append(LinOp(name, make, **k))


def ge(a, b):
    return T.ge(a, b)


for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]
    add('identity' + t, lambda d: lop.identity(d['n']), kx=kx)
    add('identity[m<n]' + t, lambda d: lop.identity(d['n'], d['m']), dims=('n', 'm'), ys=('m',), kx=kx)
    add('matrix' + t, lambda d, A: lop.matrix(A), dims=('m', 'n'), ys=('m',), kx=kx, params=[Param('A', ('m', 'n'), kx)])
    add('diagonal' + t, lambda d, w: lop.diagonal(w), kx=kx, params=[Param('w', ('n',), kx)])
    add('scalar_mult' + t, lambda d, a: lop.scalar_mult(a, d['n']), kx=kx, params=[Param('a', (), kx)])
    add('zero' + t, lambda d: lop.zero(d['n'], d['m']), dims=('n', 'm'), ys=('m',), kx=kx)
    add('flipud' + t, lambda d: lop.flipud(d['n']), kx=kx)
    add('sum' + t, lambda d: lop.sum(d['n']), ys=(1,), kx=kx)
    add('pad_zeros' + t, lambda d: lop.pad_zeros(d['n'], d['b'], d['a']), dims=('n', 'b', 'a'),
        ys=(lambda d: d['n'] + d['b'] + d['a'],), kx=kx, grid=[(1, 0, 0), (2, 1, 0), (3, 0, 2), (2, 2, 1)])
    add('symmetrize' + t, lambda d: lop.symmetrize(d['n']), ys=(lambda d: 2 * d['n'],), kx=kx)
    add('restriction' + t, lambda d, I: lop.restriction(d['n'], I), dims=('n', 'k'), ys=('k',), kx=kx,
        hyps=lambda p: [T.le(p['k'], p['n'])], grid=[(1, 1), (3, 1), (4, 2), (4, 4)], num=[(9, 4), (5, 5)],
        params=[Param('I', ('k',), 'i', lo=0, hi='n', distinct=True)])
    add('heaviside' + t, lambda d: lop.heaviside(d['n']), kx=kx)
    add('cumsum' + t, lambda d: lop.cumsum(d['n']), kx=kx)
    add('inv_heaviside' + t, lambda d: lop.inv_heaviside(d['n']), kx=kx)
    add('diff' + t, lambda d: lop.diff(d['n']), kx=kx)
    for m in (1, 2, 3, 4):
        add('fir_filter[%d taps]' % m + t, lambda d, h: lop.fir_filter(d['n'], h), kx=kx, params=[Param('h', (m,), kx)],
            hyps=lambda p, m=m: [T.ge(p['n'], m)], grid=[n for n in range(m, m + 3)])
    for m, off in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1)):
        add('convolve[%d taps,offset %d]' % (m, off) + t, lambda d, h, off=off: lop.convolve(d['n'], h, offset=off), kx=kx,
            params=[Param('h', (m,), kx)])
    for dxk in ('default', 'dx'):
        ps = [Param('dx', (), 'f', pos=True)] if dxk == 'dx' else []
        for kind in ('forward', 'backward', 'centered'):
            add('first_derivative[%s,%s]' % (kind, dxk) + t,
                lambda d, *a, kind=kind: lop.first_derivative(d['n'], *a, kind=kind), kx=kx, params=ps, minsize=3, grid=[3, 4, 5])
        add('second_derivative[%s]' % dxk + t, lambda d, *a: lop.second_derivative(d['n'], *a), kx=kx, params=ps, minsize=3,
            grid=[3, 4, 5])
    for kind in ('regular', 'dirichlet', 'circular'):
        add('tv[%s]' % kind + t, lambda d, kind=kind: lop.tv(d['n'], kind=kind), kx=kx)
    for L in (1, 2, 3, 4, 5):
        add('running_average[%d]' % L + t, lambda d, L=L: lop.running_average(d['n'], L), kx=kx,
            hyps=lambda p, L=L: [T.ge(p['n'], L)], grid=[n for n in range(L, L + 3)])
    for (h0, h1), off in (((1, 2), (0, 0)), ((2, 2), (1, 0)), ((3, 2), (1, 1)), ((3, 3), (1, 1)), ((2, 3), None)):
        add('convolve2D[%dx%d,offset %s]' % (h0, h1, off) + t,
            lambda d, h, off=off: lop.convolve2D((d['n'], d['m']), h, offset=off), dims=('n', 'm'), xs=('n', 'm'), kx=kx,
            params=[Param('h', (h0, h1), kx)], sym=False, grid=[(3, 3), (2, 4), (4, 3)])
    add('convolveND[axes]' + t, lambda d, h: lop.convolveND((d['n'], d['m'], d['k']), h, offset=(1, 0), axes=(0, 2)),
        dims=('n', 'm', 'k'), xs=('n', 'm', 'k'), kx=kx, params=[Param('h', (2, 2), kx)], sym=False, grid=[(3, 2, 2), (2, 1, 3)])
    add('convolveND[1 axis]' + t, lambda d, h: lop.convolveND((d['n'], d['m']), h, offset=(1,), axes=(1,)),
        dims=('n', 'm'), xs=('n', 'm'), kx=kx, params=[Param('h', (3,), kx)], sym=False, grid=[(3, 2), (2, 4)])
    for order in 'CF':
        add('reshape[%s]' % order + t, lambda d, order=order: lop.reshape((d['n'], d['m']), (d['m'], d['n']), order=order),
            dims=('n', 'm'), xs=('n', 'm'), ys=('m', 'n'), kx=kx, sym=False, grid=[(1, 2), (2, 3), (3, 2), (3, 4)])
    add('arr2vec' + t, lambda d: lop.arr2vec((d['n'], d['m'])), dims=('n', 'm'), xs=('n', 'm'), ys=(lambda d: d['n'] * d['m'],), kx=kx)

add('real_matrix', lambda d, A: lop.real_matrix(A), dims=('m', 'n'), ys=('m',), params=[Param('A', ('m', 'n'))])


def _bcoo(A):
    from jax.experimental.sparse import BCOO
    idx = np.array([(i, j) for i in range(A.shape[0]) for j in range(A.shape[1])])
    return BCOO((A.ravel(), idx), shape=A.shape)


add('sparse_real_matrix', lambda d, A: lop.sparse_real_matrix(_bcoo(A)), dims=('m', 'n'), ys=('m',),
    params=[Param('A', ('m', 'n'))], sym=False, grid=[(1, 2), (2, 3), (3, 2)], num=[(5, 7)])
add('dot[real]', lambda d, v: lop.dot(v), ys=(1,), params=[Param('v', ('n',))])
add('dot[complex]', lambda d, v: lop.dot(v), ys=(1,), kx='c', ky='f', params=[Param('v', ('n',), 'c')])
add('dot[2D]', lambda d, v: lop.dot(v), dims=('n', 'm'), xs=('n', 'm'), ys=(1,), params=[Param('v', ('n', 'm'))])
add('dot[adjoint]', lambda d, v: lop.dot(v, adjoint=True), xs=(1,), ys=('n',), params=[Param('v', ('n',))])
for r in (1, 2, 3):
    add('circulant[%d]' % r, lambda d, c: lop.circulant(d['n'], c), params=[Param('c', (r,))], sym=False,
        grid=[max(r, n) for n in (2, 3, 4, 5, 6)], num=[9, 16])
add('fourier_basis', lambda d: lop.fourier_basis(d['n']), kx='c', grid=[1, 2, 3, 4, 5, 6], num=[7, 16])
add('dirac_fourier_basis', lambda d: lop.dirac_fourier_basis(d['n']), xs=(lambda d: 2 * d['n'],), ys=('n',), kx='c',
    sym=False, grid=[1, 2, 3, 4, 5], num=[7, 16])
add('cosine_basis', lambda d: lop.cosine_basis(d['n']), sym=False, grid=[2, 3, 4, 5, 6], num=[1, 7, 16])
add('walsh_hadamard_basis', lambda d: lop.walsh_hadamard_basis(d['n']), sym=False, grid=[2, 4, 8], num=[16, 32])
for mode, kx in (('r2c', 'f'), ('c2c', 'c')):
    add('fft[%s]' % mode, lambda d, mode=mode: lop.fft(d['n'], mode=mode), kx=kx, ky='c', sym=False, grid=[1, 2, 3, 4, 6], num=[7, 16])
    add('fft[%s,padded]' % mode, lambda d, mode=mode: lop.fft(d['m'], d['n'], mode=mode), dims=('m', 'n'), xs=('m',), ys=('n',),
        kx=kx, ky='c', sym=False, grid=[(1, 2), (2, 4), (3, 4), (3, 6)], num=[(5, 8), (9, 11)])
for mode, kx in (('r2c', 'f'), ('c2c', 'c')):
    for ax in (0, 1):
        add('fft[%s,2D axis %d]' % (mode, ax), lambda d, mode=mode, ax=ax: lop.fft(d['m'], d['n'], mode=mode, axis=ax), dims=('m', 'n'),
            xs=('m', 2) if ax == 0 else (2, 'm'), ys=('n', 2) if ax == 0 else (2, 'n'), kx=kx, ky='c', sym=False, matrix_shape=False,
            grid=[(1, 2), (2, 4), (3, 4)], num=[(5, 8), (3, 3)])
for wname, lev, ns in (('haar', 1, (2, 3, 4, 6)), ('haar', 2, (4, 7, 8)), ('haar', 3, (8, 11)), ('db2', 1, (8,)), ('db3', 1, (16,))):
    for basis in (False, True):
        def npow(n):
            m = 1
            while m < n:
                m *= 2
            return m
        xs, ys = ('n',), (lambda d: npow(d['n']),)
        if basis:
            xs, ys = ys, xs
        add('dwt[%s,level %d%s]' % (wname, lev, ',basis' if basis else ''),
            lambda d, w=wname, lev=lev, b=basis: lop.dwt(d['n'], wavelet=w, level=lev, basis=b), xs=xs, ys=ys, sym=False,
            grid=list(ns), num=[16, 13] if wname != 'db3' else [16, 32], tol=1e-5)
for wname, lev, ns in (('haar', 1, ((2, 2), (4, 2), (3, 4))), ('haar', 2, ((4, 4),)), ('db2', 1, ((8, 8),))):
    for basis in (False, True):
        xs, ys = ('n', 'm'), (lambda d: npow(d['n']), lambda d: npow(d['m']))
        if basis:
            xs, ys = ys, xs
        add('dwt2D[%s,level %d%s]' % (wname, lev, ',basis' if basis else ''),
            lambda d, w=wname, lev=lev, b=basis: lop.dwt2D((d['n'], d['m']), wavelet=w, level=lev, basis=b), dims=('n', 'm'), xs=xs, ys=ys,
            sym=False, grid=list(ns), num=[(8, 16), (7, 8)], tol=1e-5, max_kernel=5000)


for wname, ns in (('sym4', (16,)), ('coif1', (16,)), ('bior2.2', (16, 12)), ('bior1.3', (16,)), ('rbio3.1', (8, 7)), ('bior3.3', (16,))):
    for basis in (False, True):
        xs, ys = ('n',), (lambda d: npow(d['n']),)
        if basis:
            xs, ys = ys, xs
        add('dwt[%s%s]' % (wname, ',basis' if basis else ''), lambda d, w=wname, b=basis: lop.dwt(d['n'], wavelet=w, level=1, basis=b), xs=xs, ys=ys, sym=False,
            grid=list(ns), num=[32, 27], tol=1e-5)
for basis in (False, True):
    xs, ys = ('n', 'm'), (lambda d: npow(d['n']), lambda d: npow(d['m']))
    if basis:
        xs, ys = ys, xs
    add('dwt2D[bior2.2%s]' % (',basis' if basis else ''), lambda d, b=basis: lop.dwt2D((d['n'], d['m']), wavelet='bior2.2', basis=b), dims=('n', 'm'), xs=xs, ys=ys, sym=False, grid=[(16, 16)], num=[(16, 12)], tol=1e-5, deduce=False)
    add('dwt2D[rbio3.1%s]' % (',basis' if basis else ''), lambda d, b=basis: lop.dwt2D((d['n'], d['m']), wavelet='rbio3.1', basis=b), dims=('n', 'm'), xs=xs, ys=ys, sym=False, grid=[(8, 8)], num=[(8, 12), (16, 7)], tol=1e-5, max_kernel=5000)
    for sh, ax in (((3, 'n', 'm'), (1, 2)), (('n', 2, 'm'), (2, 0)), (('n', 'm'), (1, 0)), ((2, 'n', 'm'), (-2, -1))):
        def full_(sh, up):
            return tuple((lambda d, e=e: npow(d[e]) if up else d[e]) if isinstance(e, str) else e for e in sh)
        xs, ys = full_(sh, False), full_(sh, True)
        if basis:
            xs, ys = ys, xs
        add('dwt2D[%d-D,axes %d %d%s]' % (len(sh), ax[0], ax[1], ',basis' if basis else ''), lambda d, b=basis, sh=sh, ax=ax: lop.dwt2D(tuple(d[e] if isinstance(e, str) else e for e in sh), axes=ax, basis=b), dims=('n', 'm'), xs=xs, ys=ys,
            sym=False, grid=[(2, 4), (3, 2)], num=[(8, 6), (5, 4)], tol=1e-5)


def _windowed_n(w, ov, tn):
    import math

    def f(d):
        m = d['m']
        return max(1, math.ceil((m - w) / (w - ov)) + 1) * tn
    return f


for (tm, tn, ov) in ((2, 2, 0), (3, 2, 1), (2, 3, 1), (3, 3, 2)):
    add('windowed_op[%dx%d,overlap %d]' % (tm, tn, ov), lambda d, A, ov=ov: lop.windowed_op(d['m'], lop.matrix(A), overlap=ov),
        dims=('m',), xs=(_windowed_n(tm, ov, tn),), ys=('m',), params=[Param('A', (tm, tn))], sym=False, grid=[3, 4, 5, 6, 7], num=[8, 12])
add('block_diag', lambda d, A, B: lop.block_diag([lop.matrix(A), lop.matrix(B)]), dims=('m', 'n', 'p', 'q'),
    xs=(lambda d: d['n'] + d['q'],), ys=(lambda d: d['m'] + d['p'],), kx='c',
    params=[Param('A', ('m', 'n'), 'c'), Param('B', ('p', 'q'), 'c')], grid=[(1, 2, 2, 1), (2, 1, 1, 2), (2, 2, 1, 1)])
add('block_diag[3]', lambda d, A, B, D: lop.block_diag([lop.matrix(A), lop.matrix(B), lop.diagonal(D)]), dims=('m', 'n', 'p'),
    xs=(lambda d: d['n'] + 2 + d['p'],), ys=(lambda d: d['m'] + 1 + d['p'],),
    params=[Param('A', ('m', 'n')), Param('B', (1, 2)), Param('D', ('p',))], grid=[(1, 2, 1), (2, 1, 2)])
KEY = jax.random.PRNGKey(3)
for nm in ('gaussian_dict', 'rademacher_dict', 'random_orthonormal_rows_dict'):
    add(nm, lambda d, nm=nm: getattr(lop, nm)(KEY, d['m'], d['n']), dims=('m', 'n'), ys=('m',), sym=False,
        grid=[(2, 3), (3, 5), (4, 4)], num=[(5, 8)])
add('random_onb_dict', lambda d: lop.random_onb_dict(KEY, d['n']), sym=False, grid=[2, 3, 5], num=[8])
add('sparse_binary_dict', lambda d: lop.sparse_binary_dict(KEY, d['m'], d['n'], d=2), dims=('m', 'n'), ys=('m',), sym=False,
    grid=[(3, 4), (4, 6)], num=[(6, 10)])
add('sparse_binary_dict[dense]', lambda d: lop.sparse_binary_dict(KEY, d['m'], d['n'], d=2, dense=True), dims=('m', 'n'), ys=('m',),
    sym=False, grid=[(3, 4), (4, 6)], num=[(6, 10)])
add('binary_dict_alg', lambda d: lop.binary_dict_alg(KEY, d['m'], d['n']), dims=('m', 'n'), ys=('m',), sym=False,
    grid=[(2, 3), (3, 2)], num=[(4, 4)])
for kind in ('regular', 'dirichlet', 'circular'):
    add('tv2D[%s]' % kind, lambda d, kind=kind: lop.tv2D((d['n'], d['m']), kind=kind), dims=('n', 'm'), xs=('n', 'm'), kx='c', minsize=2, grid=[(2, 2), (2, 3), (3, 2)])
# operators derived from other operators keep the identity
M_ = lop.matrix
for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]
    A_, B_ = Param('A', ('m', 'n'), kx), Param('B', ('m', 'n'), kx)

    def comb(name, make, params=None, k=kx, t=t, A_=A_, **kw):
        kw.setdefault('dims', ('m', 'n'))
        kw.setdefault('grid', [(1, 2), (2, 3), (3, 2)])
        kw.setdefault('num', [(5, 7)])
        kw.setdefault('ys', ('m',))
        add('%s' % name + t, make, kx=k, params=params or [A_], **kw)
    comb('neg', lambda d, A: lop.neg(M_(A)))
    comb('scale', lambda d, A, a: lop.scale(M_(A), a), [A_, Param('a', (), kx)])
    comb('add', lambda d, A, B: lop.add(M_(A), M_(B)), [A_, B_])
    comb('subtract', lambda d, A, B: lop.subtract(M_(A), M_(B)), [A_, B_])
    comb('adjoint', lambda d, A: lop.adjoint(M_(A)), xs=('m',), ys=('n',))
    comb('hermitian', lambda d, A: lop.hermitian(M_(A)), xs=('m',), ys=('n',))
    comb('transpose', lambda d, A: lop.transpose(M_(A)), xs=('m',), ys=('n',))
    comb('jit', lambda d, A: lop.jit(M_(A)))
    comb('gram', lambda d, A: lop.gram(M_(A)), ys=('n',))
    comb('frame', lambda d, A: lop.frame(M_(A)), xs=('m',), ys=('m',))
    comb('hcat', lambda d, A, B: lop.hcat(M_(A), M_(B)), [A_, Param('B', ('m', 'p'), kx)], dims=('m', 'n', 'p'),
         xs=(lambda d: d['n'] + d['p'],), grid=[(1, 2, 1), (2, 1, 2)], num=[(4, 3, 5)])
    comb('compose', lambda d, A, B: lop.compose(M_(A), M_(B)), [A_, Param('B', ('n', 'p'), kx)], dims=('m', 'n', 'p'),
         xs=('p',), grid=[(1, 2, 1), (2, 1, 2), (2, 2, 2)], num=[(4, 3, 5)])
    for p in (0, 1, 2, 3, 4, 5):
        comb('power[%d]' % p, lambda d, A, p=p: lop.power(M_(A), p), [Param('A', ('n', 'n'), kx)], dims=('n',), ys=('n',), sym=p <= 2,
             grid=[1, 2, 3] if p < 3 else [1, 2], num=[3])
    for perm in (False, True):
        comb('partial_op' + ('[perm]' if perm else ''), lambda d, A, I, J, perm=perm: lop.partial_op(M_(A), I, J) if perm else lop.partial_op(M_(A), I),
             [A_, Param('I', ('k',), 'i', lo=0, hi='m', distinct=True, enum=True), Param('J', ('n',), 'i', lo=0, hi='n', distinct=True, enum=True)],
             dims=('m', 'n', 'k'), ys=('k',), sym=False, hyps=lambda p: [T.le(p['k'], p['m'])],
             grid=[(1, 1, 1), (2, 2, 1), (3, 3, 2)], num=[(3, 4, 2), (6, 5, 4), (4, 4, 4)])
CONTRACTS = C
