"""C02 operator algebra, C03 application along an axis, C04 forward actions, C05 orthonormal bases and inverses,
C06 matrix views and diagnostics of operators."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from cr.sparse import lop
from vf.contract import Contract, Param
from vf import terms as T, loops
from cr.sparse._src.lop import util as lop_util

CONTRACTS = {k: [] for k in ('C02', 'C03', 'C04', 'C05', 'C06')}


def add(prop, name, fn, **k):
    k.setdefault('targets', ('lop.' + name.split('[')[0],))
    CONTRACTS[prop].append(Contract(name, fn, **k))


def eager(f, *a, **k):
    """a constructor of a fixed operator runs as it is, outside the trace"""
    with jax.ensure_compile_time_eval():
        return f(*a, **k)


def H(A):
    return jnp.conj(jnp.swapaxes(A, 0, 1))


def op_of(A, real=True, **k):
    """an arbitrary linear operator: its action is that of an arbitrary matrix"""
    return lop.Operator(times=lambda x: A @ x, trans=lambda y: H(A) @ y, shape=(A.shape[0], A.shape[1]), real=real, **k)


MN = [(1, 2), (2, 1), (2, 2), (3, 2)]
for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]
    R = kx == 'f'

    def same(c, op, M, x, y, X, Y):
        """op acts as the matrix M, its adjoint as M^H, on vectors and on matrices of vectors"""
        c.static('shape', tuple(op.shape) == tuple(M.shape), '%s vs %s' % (op.shape, M.shape))
        c.eq('times', op.times(x), M @ x)
        c.eq('trans', op.trans(y), H(M) @ y)
        c.eq('times on columns', op.times(X), M @ X)
        c.eq('trans on columns', op.trans(Y), H(M) @ Y)

    def alg(name, f, nargs=1, sq=False, **k):
        """f(c, ops, mats, alpha) -> (operator, matrix)"""
        dims = ('n',) if sq else ('m', 'n')
        m = 'n' if sq else 'm'
        ps = [Param('ABC'[i], (m, 'n'), kx) for i in range(nargs)]
        xs, ys = k.pop('xs', 'n'), k.pop('ys', m)
        if xs is None:
            xs = 'n'
        args = ps + [Param('al', (), kx), Param('x', (xs,), kx), Param('y', (ys,), kx), Param('X', (xs, 2), kx), Param('Y', (ys, 2), kx)]

        def fn(c, d, *a):
            ms, al = a[:nargs], a[nargs]
            op, M = f(c, [op_of(A, R) for A in ms], ms, al)
            same(c, op, M, *a[nargs + 1:])
        k.setdefault('grid', [1, 2, 3] if sq else MN)
        add('C02', name + t, fn, args=args, dims=dims, **k)

    alg('neg', lambda c, o, m, a: (lop.neg(o[0]), -m[0]))
    alg('-A', lambda c, o, m, a: (-o[0], -m[0]), targets=('lop.Operator.__neg__',))
    alg('scale', lambda c, o, m, a: (lop.scale(o[0], a), a * m[0]))
    alg('scale[int]', lambda c, o, m, a: (lop.scale(o[0], 3), 3 * m[0]))
    alg('add', lambda c, o, m, a: (lop.add(*o), m[0] + m[1]), 2)
    alg('A+B', lambda c, o, m, a: (o[0] + o[1], m[0] + m[1]), 2, targets=('lop.Operator.__add__',))
    alg('subtract', lambda c, o, m, a: (lop.subtract(*o), m[0] - m[1]), 2)
    alg('A-B', lambda c, o, m, a: (o[0] - o[1], m[0] - m[1]), 2, targets=('lop.Operator.__sub__',))
    alg('adjoint', lambda c, o, m, a: (lop.adjoint(o[0]), H(m[0])), xs='m', ys='n')
    alg('hermitian', lambda c, o, m, a: (lop.hermitian(o[0]), H(m[0])), xs='m', ys='n')
    alg('transpose', lambda c, o, m, a: (lop.transpose(o[0]), m[0].T), xs='m', ys='n')
    alg('adjoint of adjoint', lambda c, o, m, a: (lop.adjoint(lop.adjoint(o[0])), m[0]), targets=('lop.adjoint',))
    alg('transpose of transpose', lambda c, o, m, a: (lop.transpose(lop.transpose(o[0])), m[0]), targets=('lop.transpose',))
    alg('gram', lambda c, o, m, a: (lop.gram(o[0]), H(m[0]) @ m[0]), xs='n', ys='n')
    alg('frame', lambda c, o, m, a: (lop.frame(o[0]), m[0] @ H(m[0])), xs='m', ys='m')
    alg('hcat', lambda c, o, m, a: (lop.hcat(*o), jnp.concatenate((m[0], m[1]), 1)), 2, xs=lambda d: 2 * d['n'])
    alg('hcat[3]', lambda c, o, m, a: (lop.hcat(lop.hcat(o[0], o[1]), o[2]), jnp.concatenate(m, 1)), 3, xs=lambda d: 3 * d['n'],
        targets=('lop.hcat',))
    alg('jit', lambda c, o, m, a: (lop.jit(o[0]), m[0]))
    alg('compose[square]', lambda c, o, m, a: (lop.compose(*o), m[0] @ m[1]), 2, sq=True)
    alg('A@B', lambda c, o, m, a: (o[0] @ o[1], m[0] @ m[1]), 2, sq=True, targets=('lop.Operator.__matmul__',))
    alg('adjoint of (aA+B)@C', lambda c, o, m, a: (lop.adjoint(lop.compose(lop.add(lop.scale(o[0], a), o[1]), o[2])),
                                                  H((a * m[0] + m[1]) @ m[2])), 3, sq=True, targets=('lop.compose', 'lop.add', 'lop.scale'),
        grid=[1, 2])
    for p in (0, 1, 2, 3, 4, 5, 6, 7):
        def mpow(A, p=p):
            M = jnp.eye(A.shape[0]) if isinstance(A.shape[0], int) else None
            for _ in range(p):
                M = A if M is None else M @ A
            return M
        alg('power[%d]' % p, lambda c, o, m, a, p=p: (lop.power(o[0], p), mpow(m[0], p)), sq=True, sym=False, grid=[1, 2, 3] if p < 3 else [1, 2] if p < 5 else [1],
            num=[2, 3], max_elems=400)
    alg('A**3', lambda c, o, m, a: (o[0] ** 3, m[0] @ m[0] @ m[0]), sq=True, sym=False, grid=[1, 2], targets=('lop.Operator.__pow__',))

    def f_comp(c, d, A, B, x, y, X, Y):
        op = lop.compose(op_of(A, R), op_of(B, R))
        same(c, op, A @ B, x, y, X, Y)
    add('C02', 'compose' + t, f_comp, dims=('m', 'k', 'n'), args=[Param('A', ('m', 'k'), kx), Param('B', ('k', 'n'), kx), Param('x', ('n',), kx),
        Param('y', ('m',), kx), Param('X', ('n', 2), kx), Param('Y', ('m', 2), kx)])

    def f_hcat(c, d, A, B, x, y, X, Y):
        same(c, lop.hcat(op_of(A, R), op_of(B, R)), jnp.concatenate((A, B), 1), x, y, X, Y)
    add('C02', 'hcat[different widths]' + t, f_hcat, dims=('m', 'p', 'q'), args=[Param('A', ('m', 'p'), kx), Param('B', ('m', 'q'), kx),
        Param('x', (lambda d: d['p'] + d['q'],), kx), Param('y', ('m',), kx), Param('X', (lambda d: d['p'] + d['q'], 2), kx),
        Param('Y', ('m', 2), kx)], targets=('lop.hcat',))

    def f_block(c, d, A, B, x, y, X, Y):
        op = lop.block_diag([op_of(A, R), op_of(B, R)])
        p, m = A.shape[1], A.shape[0]
        c.static('shape', op.shape == (A.shape[0] + B.shape[0], A.shape[1] + B.shape[1]), op.shape)
        c.eq('times', op.times(x), jnp.concatenate((A @ x[:p], B @ x[p:])))
        c.eq('trans', op.trans(y), jnp.concatenate((H(A) @ y[:m], H(B) @ y[m:])))
        c.static('real flag', op.real == R, op.real)
    add('C02', 'block_diag' + t, f_block, dims=('m', 'p', 'k', 'q'), args=[Param('A', ('m', 'p'), kx), Param('B', ('k', 'q'), kx),
        Param('x', (lambda d: d['p'] + d['q'],), kx), Param('y', (lambda d: d['m'] + d['k'],), kx), Param('X', (1,), kx), Param('Y', (1,), kx)],
        grid=[(1, 2, 2, 1), (2, 1, 1, 3), (2, 2, 2, 2)])

    for shp in (((1, 2), (2, 1), (1, 3)), ((2, 3), (2, 3), (2, 3)), ((3, 1), (1, 2), (2, 2), (1, 1)), ((1, 2), (2, 1), (3, 1), (1, 2), (2, 1))):
        M_, N_ = sum(s[0] for s in shp), sum(s[1] for s in shp)

        def f_blocks(c, d, *a, shp=shp, M_=M_, N_=N_):
            As, x, y = a[:-2], a[-2], a[-1]
            op = lop.block_diag([op_of(A, R) for A in As])
            c.static('shape', tuple(op.shape) == (M_, N_), op.shape)
            i = j = 0
            u, v = [], []
            for A in As:
                u.append(A @ x[j:j + A.shape[1]])
                v.append(H(A) @ y[i:i + A.shape[0]])
                i, j = i + A.shape[0], j + A.shape[1]
            c.eq('times', op.times(x), jnp.concatenate(u))
            c.eq('trans', op.trans(y), jnp.concatenate(v))
        add('C02', 'block_diag[%s]' % ','.join('%dx%d' % s for s in shp) + t, f_blocks,
            args=[Param('A%d' % i, s, kx) for i, s in enumerate(shp)] + [Param('x', (N_,), kx), Param('y', (M_,), kx)], grid=[{}], num=[{}])

    for perm in (False, True):
        def f_part(c, d, A, I, J, x, y, X, Y, perm=perm):
            op = lop.partial_op(op_of(A, R), I, J) if perm else lop.partial_op(op_of(A, R), I)
            M = A[I]
            c.static('shape', op.shape == (I.shape[0], A.shape[1]), op.shape)
            xp, Xp = (x[J], X[J]) if perm else (x, X)
            c.eq('times', op.times(x), M @ xp)
            c.eq('times on columns', op.times(X), M @ Xp)
            ty, tY = H(M) @ y, H(M) @ Y
            if perm:
                ty, tY = jnp.zeros_like(ty).at[J].set(ty), jnp.zeros_like(tY).at[J].set(tY)
            c.eq('trans', op.trans(y), ty)
            c.eq('trans on columns', op.trans(Y), tY)
        add('C02', 'partial_op%s' % ('[perm]' if perm else '') + t, f_part, dims=('m', 'n', 'k'), hyps=lambda p: [T.le(p['k'], p['m'])],
            args=[Param('A', ('m', 'n'), kx), Param('I', ('k',), 'i', lo=0, hi='m', distinct=True, enum=True),
                  Param('J', ('n',), 'i', lo=0, hi='n', distinct=True, enum=True), Param('x', ('n',), kx), Param('y', ('k',), kx),
                  Param('X', ('n', 2), kx), Param('Y', ('k', 2), kx)], sym=False,
            grid=[(1, 1, 1), (2, 2, 1), (3, 2, 2)], num=[(3, 4, 2), (6, 5, 4), (4, 4, 4)])

    def f_times2d(c, d, A, X, Y):
        op = op_of(A, R)
        c.eq('times_2d', op.times_2d(X), A @ X)
        c.eq('trans_2d', op.trans_2d(Y), H(A) @ Y)
    add('C02', 'Operator.times_2d' + t, f_times2d, dims=('m', 'n'), args=[Param('A', ('m', 'n'), kx), Param('X', ('n', 3), kx),
        Param('Y', ('m', 3), kx)], grid=MN)


def f_flags(c, d):
    """derived operators inherit the safety and realness flags of their operands"""
    n = 3
    I = jnp.eye(n)
    for js, ms, re in itertools.product((True, False), repeat=3):
        A = lop.Operator(times=lambda x: x, trans=lambda x: x, shape=(n, n), jit_safe=js, matrix_safe=ms, real=re)
        B = lop.Operator(times=lambda x: x, trans=lambda x: x, shape=(n, n))
        P = [('neg', lop.neg(A)), ('scale', lop.scale(A, 2.)), ('adjoint', lop.adjoint(A)), ('hermitian', lop.hermitian(A)),
             ('transpose', lop.transpose(A)), ('power', lop.power(A, 2)), ('partial_op', lop.partial_op(A, jnp.array([0, 2]))),
             ('add', lop.add(A, B)), ('add2', lop.add(B, A)), ('subtract', lop.subtract(A, B)), ('subtract2', lop.subtract(B, A)),
             ('compose', lop.compose(A, B)), ('compose2', lop.compose(B, A)), ('hcat', lop.hcat(A, B)), ('hcat2', lop.hcat(B, A)),
             ('gram', lop.gram(A)), ('frame', lop.frame(A))]
        for nm, o in P:
            c.static('%s flags' % nm, (o.jit_safe, o.matrix_safe, o.real) == (js, ms, re), '%s %s' % ((o.jit_safe, o.matrix_safe, o.real), (js, ms, re)))
        c.static('complex scale is not real', lop.scale(A, 1j).real is False or lop.scale(A, 1j).real == False, '')
        c.static('complex array scale is not real', not lop.scale(A, jnp.asarray(1j)).real, '')
        if js:
            o = lop.jit(A)
            c.static('jit flags', (o.matrix_safe, o.real, o.linear) == (ms, re, True), '')
    N = lop.Operator(times=jnp.real, trans=jnp.real, shape=(n, n), linear=False)
    c.static('jit keeps linear flag', lop.jit(N).linear is False, '')
    for nm, mk in (('add', lop.add), ('subtract', lop.subtract), ('compose', lop.compose), ('hcat', lop.hcat)):
        ok = False
        try:
            A = op_of(jnp.ones((3, 4)))
            B = op_of(jnp.ones((5, 2)))
            mk(A, B)
        except AssertionError:
            ok = True
        c.static('%s rejects incompatible operands' % nm, ok, '')


add('C02', 'flags', f_flags, deduce=True, grid=[{}], num=[{}], samples=1, thorough_samples=1, targets=('lop',))


def f_realflag(c, d, h, hc):
    for nm, o in (('diagonal', lop.diagonal(hc)), ('scalar_mult', lop.scalar_mult(hc[0], 3)), ('fir_filter', lop.fir_filter(4, hc)),
                  ('convolve', lop.convolve(4, hc)), ('matrix', lop.matrix(hc[None])), ('convolve2D', lop.convolve2D((3, 3), hc[None]))):
        c.static('%s of complex data is not declared real' % nm, not o.real, o.real)
    for nm, o in (('diagonal', lop.diagonal(h)), ('scalar_mult', lop.scalar_mult(h[0], 3)), ('fir_filter', lop.fir_filter(4, h)),
                  ('convolve', lop.convolve(4, h)), ('matrix', lop.matrix(h[None])), ('convolve2D', lop.convolve2D((3, 3), h[None]))):
        c.static('%s of real data is declared real' % nm, bool(o.real), o.real)
    c.static('fourier basis is not real', not lop.fourier_basis(4).real and not lop.dirac_fourier_basis(4).real and not lop.fft(4).real, '')
    c.static('real() is not linear', lop.real(4).linear is False, '')


add('C02', 'declared realness', f_realflag, args=[Param('h', (3,)), Param('hc', (3,), 'c')], grid=[{}], num=[{}], samples=1, targets=('lop',))

# ---------------------------------------------------------------- C03
AX = [
    ('identity', lambda d, ax, *a: lop.identity(d['n'], axis=ax), 'n', 'n', []),
    ('identity[pad]', lambda d, ax, *a: lop.identity(d['n'], d['n'] + 2, axis=ax), 'n', lambda d: d['n'] + 2, []),
    ('identity[drop]', lambda d, ax, *a: lop.identity(d['n'] + 1, d['n'], axis=ax), lambda d: d['n'] + 1, 'n', []),
    ('matrix', lambda d, ax, A: lop.matrix(A, axis=ax), 'n', 3, [Param('A', (3, 'n'), 'c')]),
    ('diagonal', lambda d, ax, w: lop.diagonal(w, axis=ax), 'n', 'n', [Param('w', ('n',), 'c')]),
    ('zero', lambda d, ax: lop.zero(d['n'], 3, axis=ax), 'n', 3, []),
    ('restriction', lambda d, ax, I: lop.restriction(d['n'], I, axis=ax), 'n', 2, [Param('I', (2,), 'i', lo=0, hi='n', distinct=True)]),
    ('heaviside', lambda d, ax: lop.heaviside(d['n'], axis=ax), 'n', 'n', []),
    ('cumsum', lambda d, ax: lop.cumsum(d['n'], axis=ax), 'n', 'n', []),
    ('inv_heaviside', lambda d, ax: lop.inv_heaviside(d['n'], axis=ax), 'n', 'n', []),
    ('diff', lambda d, ax: lop.diff(d['n'], axis=ax), 'n', 'n', []),
    ('fir_filter', lambda d, ax, h: lop.fir_filter(d['n'], h, axis=ax), 'n', 'n', [Param('h', (2,), 'c')]),
    ('running_average', lambda d, ax: lop.running_average(d['n'], 2, axis=ax), 'n', 'n', []),
    ('convolve', lambda d, ax, h: lop.convolve(d['n'], h, offset=1, axis=ax), 'n', 'n', [Param('h', (3,), 'c')]),
    ('circulant', lambda d, ax, h: lop.circulant(d['n'], h, axis=ax), 'n', 'n', [Param('h', (2,))]),
    ('tv[regular]', lambda d, ax: lop.tv(d['n'], 'regular', axis=ax), 'n', 'n', []),
    ('tv[dirichlet]', lambda d, ax: lop.tv(d['n'], 'dirichlet', axis=ax), 'n', 'n', []),
    ('tv[circular]', lambda d, ax: lop.tv(d['n'], 'circular', axis=ax), 'n', 'n', []),
    ('dwt', lambda d, ax: lop.dwt(4, level=1, axis=ax), 4, 4, []),
    ('dwt[level 2]', lambda d, ax: lop.dwt(4, level=2, axis=ax), 4, 4, []),
    ('dwt[basis]', lambda d, ax: lop.dwt(4, level=2, axis=ax, basis=True), 4, 4, []),
    ('fft', lambda d, ax: lop.fft(d['n'], axis=ax, mode='c2c'), 'n', 'n', []),
    ('fft[padded]', lambda d, ax: lop.fft(d['n'], d['n'] + 1, axis=ax, mode='c2c'), 'n', lambda d: d['n'] + 1, []),
    ('block_diag', lambda d, ax, A, B: lop.block_diag([lop.matrix(A), lop.matrix(B)], axis=ax), 3, 3, [Param('A', (2, 1)), Param('B', (1, 2))]),
    ('windowed_op', lambda d, ax, A: lop.windowed_op(5, lop.matrix(A), overlap=1, axis=ax), 4, 5, [Param('A', (3, 2))]),
    ('gaussian_dict', lambda d, ax: lop.gaussian_dict(jax.random.PRNGKey(1), 2, d['n'], axis=ax), 'n', 2, []),
    ('rademacher_dict', lambda d, ax: lop.rademacher_dict(jax.random.PRNGKey(1), 2, d['n'], axis=ax), 'n', 2, []),
    ('random_onb_dict', lambda d, ax: lop.random_onb_dict(jax.random.PRNGKey(1), d['n'], axis=ax), 'n', 'n', []),
    ('random_orthonormal_rows_dict', lambda d, ax: lop.random_orthonormal_rows_dict(jax.random.PRNGKey(1), 2, d['n'] + 1, axis=ax), lambda d: d['n'] + 1, 2, []),
    ('binary_dict_alg', lambda d, ax: lop.binary_dict_alg(jax.random.PRNGKey(1), 2, d['n'], axis=ax), 'n', 2, []),
    ('sparse_binary_dict[dense]', lambda d, ax: lop.sparse_binary_dict(jax.random.PRNGKey(1), 3, d['n'], d=2, axis=ax, dense=True), 'n', 3, []),
    ('sparse_binary_dict', lambda d, ax: lop.sparse_binary_dict(jax.random.PRNGKey(1), 3, d['n'], d=2, axis=ax), 'n', 3, []),
]
SKIP3D = ('sparse_binary_dict',)


class _DefaultAxis:
    """the constructors of `lop` called without their `axis` argument"""

    def __getattr__(self, name):
        f = getattr(lop, name)
        return lambda *a, axis=None, **k: f(*a, **k)


def default_axis(mk):
    import types
    return types.FunctionType(mk.__code__, dict(globals(), lop=_DefaultAxis()))


for nm, mk, nx, ny, ps in AX:
    for layout in ('columns', 'columns (default axis)', 'rows', 'rows (axis -1)', 'axis 1 of 3', 'axis 0 of 3', 'axis 2 of 3', 'axis -2 of 3'):
        if nm in SKIP3D and 'of 3' in layout:
            continue
        ax = {'columns': 0, 'columns (default axis)': 0, 'rows': 1, 'rows (axis -1)': -1}.get(layout)
        if ax is None:
            ax = int(layout.split()[1])

        def shp(n, layout=layout, ax=ax):
            if layout.startswith('columns'):
                return (n, 2)
            if layout.startswith('rows'):
                return (2, n)
            s = [2, 2]
            s.insert(ax % 3, n)
            return tuple(s)

        def fn(c, d, *a, mk=mk, ax=ax, layout=layout, nd=len(shp('n'))):
            ps, X, Y = a[:-2], a[-2], a[-1]
            one = mk(d, 0, *ps)
            op = (default_axis(mk) if 'default' in layout else mk)(d, ax, *ps)
            other = [(0, 1)] * (nd - 1)
            U, V = op.times(X), op.trans(Y)
            X0, Y0, U0, V0 = (jnp.moveaxis(jnp.asarray(z), ax, 0) for z in (X, Y, U, V))
            for ix in itertools.product(*other):
                c.eq('times acts on each slice', U0[(slice(None),) + ix], one.times(X0[(slice(None),) + ix]))
                c.eq('trans acts on each slice', V0[(slice(None),) + ix], one.trans(Y0[(slice(None),) + ix]))
        kx = 'f' if nm.split('[')[0] in ('circulant', 'dwt', 'sparse_binary_dict', 'windowed_op') else 'c'
        uses_n = callable(nx) or nx == 'n' or callable(ny) or ny == 'n' or any('n' in p.shape for p in ps)
        symok = uses_n and not any(s in nm for s in ('dict', 'fft', 'circulant'))
        add('C03', '%s on %s' % (nm, layout), fn, args=ps + [Param('X', shp(nx), kx), Param('Y', shp(ny), kx)], dims=('n',) if uses_n else (),
            sym=symok, minsize=2, grid=[2, 3] if uses_n else [{}], num=[5] if uses_n else [{}], samples=2,
            targets=('lop.' + nm.split('[')[0], 'lop.util.apply_along_axis'))
for nm, mk in (('flipud', lambda d: lop.flipud(d['n'])), ('sum', lambda d: lop.sum(d['n'])), ('fourier_basis', lambda d: lop.fourier_basis(d['n'])),
               ('dirac_fourier_basis', lambda d: lop.dirac_fourier_basis(d['n'])), ('cosine_basis', lambda d: lop.cosine_basis(d['n'])),
               ('walsh_hadamard_basis', lambda d: eager(lop.walsh_hadamard_basis, 2 * d['n'])), ('symmetrize', lambda d: lop.symmetrize(d['n'])),
               ('scalar_mult', lambda d: lop.scalar_mult(-2.5, d['n']))):
    sx = {'dirac_fourier_basis': lambda d: 2 * d['n'], 'walsh_hadamard_basis': lambda d: 2 * d['n']}.get(nm, 'n')
    sy = {'sum': 1, 'symmetrize': lambda d: 2 * d['n'], 'walsh_hadamard_basis': lambda d: 2 * d['n']}.get(nm, 'n')

    def fn(c, d, X, Y, mk=mk):
        op = mk(d)
        U, V = op.times(X), op.trans(Y)
        for j in (0, 1):
            c.eq('times acts on each column', U[:, j], op.times(X[:, j]))
            c.eq('trans acts on each column', V[:, j], op.trans(Y[:, j]))
    kx = 'c' if nm not in ('cosine_basis', 'walsh_hadamard_basis') else 'f'
    add('C03', '%s on columns' % nm, fn, args=[Param('X', (sx, 2), kx), Param('Y', (sy, 2), kx)], dims=('n',), sym='basis' not in nm,
        grid=[1, 2, 4] if nm not in ('walsh_hadamard_basis',) else [1, 2, 4], num=[4, 8], samples=2)

# ---------------------------------------------------------------- C04: forward action (independent definitions)
for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]

    def act(name, mk, ref, ps=(), xs=('n',), dims=('n',), **k):
        def fn(c, d, *a):
            x = a[-1]
            c.eq('times', mk(d, *a[:-1]).times(x), ref(d, *a))
        add('C04', name + t, fn, args=list(ps) + [Param('x', xs, kx)], dims=dims, **k)

    act('identity', lambda d: lop.identity(d['n']), lambda d, x: x)
    act('identity[n,m]', lambda d: lop.identity(d['n'], d['m']),
        lambda d, x: jnp.where(jnp.arange(d['m']) < d['n'], x[jnp.clip(jnp.arange(d['m']), 0, d['n'] - 1)], 0), dims=('n', 'm'))
    act('matrix', lambda d, A: lop.matrix(A), lambda d, A, x: jnp.sum(A * x[None, :], axis=1), [Param('A', ('m', 'n'), kx)], dims=('m', 'n'))
    act('real_matrix', lambda d, A: lop.real_matrix(A), lambda d, A, x: jnp.sum(A * x[None, :], axis=1), [Param('A', ('m', 'n'))], dims=('m', 'n'))
    act('diagonal', lambda d, w: lop.diagonal(w), lambda d, w, x: w * x, [Param('w', ('n',), kx)])
    act('scalar_mult', lambda d, a: lop.scalar_mult(a, d['n']), lambda d, a, x: a * x, [Param('a', (), kx)])
    act('zero', lambda d: lop.zero(d['n'], d['m']), lambda d, x: jnp.zeros(d['m'], dtype=x.dtype), dims=('n', 'm'))
    act('flipud', lambda d: lop.flipud(d['n']), lambda d, x: x[d['n'] - 1 - jnp.arange(d['n'])])
    act('sum', lambda d: lop.sum(d['n']), lambda d, x: jnp.sum(x)[None])
    act('pad_zeros', lambda d: lop.pad_zeros(d['n'], d['b'], d['a']),
        lambda d, x: jnp.concatenate((jnp.zeros(d['b'], x.dtype), x, jnp.zeros(d['a'], x.dtype))), dims=('n', 'b', 'a'),
        grid=[(1, 0, 0), (2, 1, 0), (3, 0, 2), (2, 2, 1)], minsize=0, hyps=lambda p: [T.ge(p['n'], 1)])
    act('symmetrize', lambda d: lop.symmetrize(d['n']),
        lambda d, x: jnp.where(jnp.arange(2 * d['n']) < d['n'], x[jnp.clip(d['n'] - 1 - jnp.arange(2 * d['n']), 0, d['n'] - 1)],
                               x[jnp.clip(jnp.arange(2 * d['n']) - d['n'], 0, d['n'] - 1)]))
    act('restriction', lambda d, I: lop.restriction(d['n'], I), lambda d, I, x: x[I], [Param('I', ('k',), 'i', lo=0, hi='n', distinct=True)],
        dims=('n', 'k'), hyps=lambda p: [T.le(p['k'], p['n'])], grid=[(1, 1), (3, 2), (4, 4)], num=[(8, 3)])

    def lower(n):
        i = jnp.arange(n)
        return jnp.where(i[:, None] >= i[None, :], 1.0, 0.0)
    act('heaviside[normalized]', lambda d: lop.heaviside(d['n']),
        lambda d, x: jnp.sum(lower(d['n']) * (x / jnp.sqrt(1.0 * (d['n'] - jnp.arange(d['n']))))[None, :], axis=1))
    act('heaviside[plain]', lambda d: lop.heaviside(d['n'], normalized=False), lambda d, x: jnp.sum(lower(d['n']) * x[None, :], axis=1))
    act('cumsum', lambda d: lop.cumsum(d['n']), lambda d, x: jnp.sum(lower(d['n']) * x[None, :], axis=1))

    def dif(x):
        i = jnp.arange(x.shape[0])
        return jnp.where(i == 0, x, x - x[jnp.clip(i - 1, 0, None)])
    act('inv_heaviside[normalized]', lambda d: lop.inv_heaviside(d['n']), lambda d, x: dif(x) * jnp.sqrt(1.0 * (d['n'] - jnp.arange(d['n']))))
    act('inv_heaviside[plain]', lambda d: lop.inv_heaviside(d['n'], normalized=False), lambda d, x: dif(x))
    act('diff', lambda d: lop.diff(d['n']), lambda d, x: dif(x))

    def at(x, i):
        """x[i] with zero outside"""
        n = x.shape[0]
        return jnp.where((i >= 0) & (i < n), x[jnp.clip(i, 0, n - 1)], 0)
    for m in (1, 2, 3, 4, 5):
        def ref(d, h, x, m=m):
            i = jnp.arange(d['n']) + (m - 1) // 2
            return sum(h[k] * at(x, i - k) for k in range(m))
        act('fir_filter[%d taps]' % m, lambda d, h: lop.fir_filter(d['n'], h), ref, [Param('h', (m,), kx)], hyps=lambda p, m=m: [T.ge(p['n'], m)],
            grid=[m, m + 1, m + 2])

        def ref(d, x, m=m):
            i = jnp.arange(d['n']) + (m - 1) // 2
            return sum(at(x, i - k) for k in range(m)) / m
        act('running_average[%d]' % m, lambda d, m=m: lop.running_average(d['n'], m), ref, hyps=lambda p, m=m: [T.ge(p['n'], m)],
            grid=[m, m + 1, m + 2])
    for m, off in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 2)):
        def ref(d, h, x, m=m, off=off):
            i = jnp.arange(d['n']) + off
            return sum(h[k] * at(x, i - k) for k in range(m))
        act('convolve[%d taps,offset %d]' % (m, off), lambda d, h, off=off: lop.convolve(d['n'], h, offset=off), ref, [Param('h', (m,), kx)])
    for r in (1, 2, 3):
        if kx == 'c':
            continue

        def ref(d, c, x, r=r):
            i = jnp.arange(d['n'])
            return sum(c[k] * x[(i - k) % d['n']] for k in range(r))
        act('circulant[%d]' % r, lambda d, c: lop.circulant(d['n'], c), ref, [Param('c', (r,))], sym=False, grid=[max(r, n) for n in (2, 3, 4, 5)] if r < 3 else [3, 4, 5, 6],
            num=[8, 9])
    for (p0, p1), (o0, o1) in (((1, 2), (0, 0)), ((2, 2), (1, 0)), ((3, 2), (1, 1)), ((3, 3), (2, 0))):
        def ref(d, h, x, p0=p0, p1=p1, o0=o0, o1=o1):
            n, m = d['n'], d['m']
            i, j = jnp.arange(n)[:, None] + o0, jnp.arange(m)[None, :] + o1

            def at2(a, b):
                ok = (a >= 0) & (a < n) & (b >= 0) & (b < m)
                return jnp.where(ok, x[jnp.clip(a, 0, n - 1), jnp.clip(b, 0, m - 1)], 0)
            return sum(h[k, l] * at2(i - k, j - l) for k in range(p0) for l in range(p1))
        act('convolve2D[%dx%d,offset %d,%d]' % (p0, p1, o0, o1), lambda d, h, o=(o0, o1): lop.convolve2D((d['n'], d['m']), h, offset=o), ref,
            [Param('h', (p0, p1), kx)], xs=('n', 'm'), dims=('n', 'm'), sym=False, grid=[(2, 3), (3, 3), (4, 2)], num=[(5, 6)])

    def ref(d, h, x):
        m = d['m']
        j = jnp.arange(m)[None, :] + 1
        ok = lambda b: (b >= 0) & (b < m)
        return sum(h[k] * jnp.where(ok(j - k), x[:, jnp.clip(j[0] - k, 0, m - 1)], 0) for k in range(3))
    act('convolveND[axis 1]', lambda d, h: lop.convolveND((d['n'], d['m']), h, offset=(1,), axes=(1,)), ref, [Param('h', (3,), kx)], xs=('n', 'm'),
        dims=('n', 'm'), sym=False, grid=[(2, 3), (1, 4)], num=[(3, 5)])
    for dx in ('', 'dx'):
        ps = [Param('dx', (), 'f', pos=True)] if dx else []

        def fwd(d, *a):
            x, h = a[-1], (a[0] if len(a) > 1 else 1.0)
            i = jnp.arange(d['n'])
            return jnp.where(i < d['n'] - 1, (at(x, i + 1) - x) / h, 0)

        def bwd(d, *a):
            x, h = a[-1], (a[0] if len(a) > 1 else 1.0)
            i = jnp.arange(d['n'])
            return jnp.where(i > 0, (x - at(x, i - 1)) / h, 0)

        def cen(d, *a):
            x, h = a[-1], (a[0] if len(a) > 1 else 1.0)
            i = jnp.arange(d['n'])
            return jnp.where((i > 0) & (i < d['n'] - 1), (at(x, i + 1) - at(x, i - 1)) / (2 * h), 0)

        def sec(d, *a):
            x, h = a[-1], (a[0] if len(a) > 1 else 1.0)
            i = jnp.arange(d['n'])
            return jnp.where((i > 0) & (i < d['n'] - 1), (at(x, i + 1) - 2 * x + at(x, i - 1)) / (h * h), 0)
        for kind, ref in (('forward', fwd), ('backward', bwd), ('centered', cen)):
            act('first_derivative[%s%s]' % (kind, dx and ',dx'), lambda d, *a, kind=kind: lop.first_derivative(d['n'], *a, kind=kind), ref, ps,
                minsize=3, grid=[3, 4, 5])
        act('second_derivative%s' % (dx and '[dx]'), lambda d, *a: lop.second_derivative(d['n'], *a), sec, ps, minsize=3, grid=[3, 4, 5])

    def d1(x, kind, ax):
        x = jnp.moveaxis(x, ax, 0)
        n = x.shape[0]
        i = jnp.arange(n)
        nx = x[(i + 1) % n] if isinstance(n, int) else x[jnp.where(i + 1 < n, i + 1, 0)]
        last = (i == n - 1)[(slice(None),) + (None,) * (x.ndim - 1)]
        if kind == 'regular':
            nx = jnp.where(last, x, nx)
        elif kind == 'dirichlet':
            nx = jnp.where(last, 0, nx)
        return jnp.moveaxis(nx - x, 0, ax)
    for kind in ('regular', 'dirichlet', 'circular'):
        act('tv[%s]' % kind, lambda d, kind=kind: lop.tv(d['n'], kind=kind), lambda d, x, kind=kind: d1(x, kind, 0))
        if kx == 'f':
            act('tv2D[%s]' % kind, lambda d, kind=kind: lop.tv2D((d['n'], d['m']), kind=kind),
                lambda d, x, kind=kind: d1(x, kind, 1) + 1j * d1(x, kind, 0), xs=('n', 'm'), dims=('n', 'm'), minsize=2, grid=[(2, 2), (2, 3), (3, 2)])
    for order in 'CF':
        act('reshape[%s]' % order, lambda d, order=order: eager(lop.reshape, (d['n'], d['m']), (d['m'], d['n']), order=order),
            lambda d, x, order=order: (x.reshape(-1).reshape((d['m'], d['n'])) if order == 'C' else x.T.reshape(-1).reshape((d['n'], d['m'])).T),
            xs=('n', 'm'), dims=('n', 'm'), sym=False, grid=[(1, 2), (2, 3), (3, 2)], num=[(3, 4)])
    act('arr2vec', lambda d: lop.arr2vec((d['n'], d['m'])), lambda d, x: x.reshape(-1), xs=('n', 'm'), dims=('n', 'm'),
        grid=[(1, 2), (2, 3), (3, 2)], num=[(3, 4)])

    def win(d, A, x, w=3, tn=2, ov=1):
        m = d['m']
        nb = d['nb']
        y = jnp.zeros(w + (nb - 1) * (w - ov), dtype=jnp.result_type(A, x))
        for b in range(nb):
            y = y.at[b * (w - ov):b * (w - ov) + w].add(A @ x[b * tn:(b + 1) * tn])
        return y[:m]
    act('windowed_op', lambda d, A: lop.windowed_op(d['m'], lop.matrix(A), overlap=1), win, [Param('A', (3, 2), kx)],
        xs=(lambda d: 2 * d['nb'],), dims=('m', 'nb'), sym=False, grid=[(3, 1), (4, 2), (5, 2), (6, 3), (7, 3)], num=[(9, 4)])


def f_real(c, d, x):
    op = lop.real(d['n'])
    c.eq('times', op.times(x), jnp.real(x))
    c.eq('trans', op.trans(x), jnp.real(x))


add('C04', 'real', f_real, args=[Param('x', ('n',), 'c')], dims=('n',))


def f_dot(c, d, v, x, a):
    c.eq('times', lop.dot(v).times(x), jnp.sum(jnp.real(jnp.conj(v) * x))[None])
    c.eq('trans', lop.dot(v).trans(a[None]), v * a)
    c.eq('adjoint times', lop.dot(v, adjoint=True).times(a[None]), v * a)
    c.eq('adjoint trans', lop.dot(v, adjoint=True).trans(x), jnp.sum(jnp.real(jnp.conj(v) * x))[None])


add('C04', 'dot[real]', f_dot, args=[Param('v', ('n',)), Param('x', ('n',)), Param('a', ())], dims=('n',))
add('C04', 'dot[complex]', f_dot, args=[Param('v', ('n',), 'c'), Param('x', ('n',), 'c'), Param('a', ())], dims=('n',))
add('C04', 'dot[2D]', f_dot, args=[Param('v', ('n', 'm')), Param('x', ('n', 'm')), Param('a', ())], dims=('n', 'm'))


def f_tvnorm(c, d, x, kind):
    op = lop.tv2D((d['n'], d['m']), kind=kind)
    y = op.times(x)
    h, v = lop.tv(d['m'], kind=kind, axis=1).times(x), lop.tv(d['n'], kind=kind, axis=0).times(x)
    c.eq('horizontal differences in the real part', jnp.real(y), h)
    c.eq('vertical differences in the imaginary part', jnp.imag(y), v)


for kind in ('regular', 'dirichlet', 'circular'):
    add('C04', 'tv2D[%s] parts' % kind, lambda c, d, x, kind=kind: f_tvnorm(c, d, x, kind), args=[Param('x', ('n', 'm'))], dims=('n', 'm'),
        minsize=2, grid=[(2, 2), (3, 2)], targets=('lop.tv2D', 'lop.tv'))


def dftm(n, s):
    k = np.arange(n)
    return np.exp(s * 2j * np.pi * np.outer(k, k) / n)


def f_fb(c, d, x):
    n = d['n']
    op = lop.fourier_basis(n)
    c.eq('times', op.times(x), jnp.asarray(dftm(n, 1) / np.sqrt(n)) @ x)
    c.eq('trans', op.trans(x), jnp.asarray(dftm(n, -1) / np.sqrt(n)) @ x)


add('C04', 'fourier_basis', f_fb, args=[Param('x', ('n',), 'c')], dims=('n',), sym=False, grid=[1, 2, 3, 4, 6], num=[5, 8, 16])


def f_dfb(c, d, x):
    n = d['n']
    c.eq('times', lop.dirac_fourier_basis(n).times(x), x[:n] + jnp.asarray(dftm(n, 1) / np.sqrt(n)) @ x[n:])


add('C04', 'dirac_fourier_basis', f_dfb, args=[Param('x', (lambda d: 2 * d['n'],), 'c')], dims=('n',), sym=False, grid=[1, 2, 3, 4], num=[5, 8])


def f_fft(c, d, x, mode='c2c'):
    m, n = d['m'], d['n']
    F = dftm(n, -1)[:, :m]
    c.eq('times', lop.fft(m, n, mode=mode).times(x), jnp.asarray(F) @ x)
    c.eq('default length', lop.fft(m, mode=mode).times(x), jnp.asarray(dftm(m, -1)) @ x)


for mode, kx in (('c2c', 'c'), ('r2c', 'f')):
    add('C04', 'fft[%s]' % mode, lambda c, d, x, mode=mode: f_fft(c, d, x, mode), args=[Param('x', ('m',), kx)], dims=('m', 'n'), sym=False,
        grid=[(1, 1), (2, 2), (2, 4), (3, 4), (3, 6)], num=[(5, 8), (8, 8)])


def dctm(n):
    i, k = np.arange(n)[:, None], np.arange(n)[None, :]
    D = np.sqrt(2.0 / n) * np.cos(np.pi * (2 * i + 1) * k / (2 * n))
    D[:, 0] /= np.sqrt(2)
    return D


def f_dct(c, d, x):
    n = d['n']
    c.eq('times', lop.cosine_basis(n).times(x), jnp.asarray(dctm(n)) @ x)
    c.eq('trans', lop.cosine_basis(n).trans(x), jnp.asarray(dctm(n).T) @ x)


add('C04', 'cosine_basis', f_dct, args=[Param('x', ('n',))], dims=('n',), sym=False, grid=[2, 3, 4, 5], num=[7, 8, 16])


def hadm(n):
    Hm = np.ones((1, 1))
    while Hm.shape[0] < n:
        Hm = np.block([[Hm, Hm], [Hm, -Hm]])
    Hm = Hm[np.argsort((np.diff(Hm, axis=1) != 0).sum(1))]     # sequency order
    return Hm / np.sqrt(n)


def f_wht(c, d, x):
    n = d['n']
    c.eq('times', eager(lop.walsh_hadamard_basis, n).times(x), jnp.asarray(hadm(n)) @ x)


add('C04', 'walsh_hadamard_basis', f_wht, args=[Param('x', ('n',))], dims=('n',), sym=False, grid=[2, 4, 8], num=[16])


def haarm(n, lev):
    M = np.eye(n)
    k = n
    for _ in range(lev):
        S = np.eye(n)
        S[:k, :k] = 0
        for i in range(k // 2):
            S[i, 2 * i] = S[i, 2 * i + 1] = 1 / np.sqrt(2)
            S[k // 2 + i, 2 * i], S[k // 2 + i, 2 * i + 1] = 1 / np.sqrt(2), -1 / np.sqrt(2)
        M = S @ M
        k //= 2
    return M


for lev in (1, 2, 3):
    def f_haar(c, d, x, lev=lev):
        n = d['n']
        m = 1
        while m < n:
            m *= 2
        M = haarm(m, lev)
        c.eq('times', lop.dwt(n, level=lev).times(x), jnp.asarray(M[:, :n]) @ x)
    add('C04', 'dwt[haar,level %d]' % lev, f_haar, args=[Param('x', ('n',))], dims=('n',), sym=False, tol=1e-5,
        grid=[g for g in (2, 4, 6, 8) if g >= 2 ** lev], num=[16, 11])

    def f_haar2(c, d, X, lev=lev):
        n, m = d['n'], d['m']
        up = lambda v: 1 << (v - 1).bit_length()
        P = np.zeros((up(n), up(m)))
        Xp = jnp.zeros((up(n), up(m))).at[:n, :m].set(X)
        R, a, b = Xp, up(n), up(m)
        for _ in range(lev):
            R = R.at[:a, :b].set(jnp.asarray(haarm(a, 1)) @ R[:a, :b] @ jnp.asarray(haarm(b, 1)).T)
            a, b = a // 2, b // 2
        c.eq('times', lop.dwt2D((n, m), level=lev).times(X), R)
    add('C04', 'dwt2D[haar,level %d]' % lev, f_haar2, args=[Param('X', ('n', 'm'))], dims=('n', 'm'), sym=False, tol=1e-5,
        grid=[(2, 2), (4, 2)] if lev == 1 else [(4, 4)] if lev == 2 else [(8, 8)], num=[(8, 8), (16, 8)])



def wave_ref(x, lo, hi):
    """one level of the periodised filter bank: approximation and detail"""
    n, L = x.shape[0], lo.shape[0]
    k = np.arange(n // 2)
    g = lambda h: sum(h[j] * x[(2 * k + L // 2 - j) % n] for j in range(L))
    return g(lo), g(hi)


def wave_rec(a, d, lo, hi):
    n, L = 2 * a.shape[0], lo.shape[0]
    k = np.arange(n // 2)
    z = jnp.zeros(n, dtype=a.dtype)
    for j in range(L):
        z = z.at[(2 * k + j + 1 - L // 2) % n].add(lo[j] * a + hi[j] * d)
    return z


def f_wave(c, d, x, w, lev, basis):
    import cr.wavelets as wt
    n = d['n']
    W = wt.to_wavelet(w)
    op = lop.dwt(n, w, lev, basis=basis)
    m = 1 << (n - 1).bit_length()
    if basis:
        a = x[:m >> lev]
        for i in range(lev, 0, -1):
            a = wave_rec(a, x[m >> i:m >> (i - 1)], W.rec_lo, W.rec_hi)
        c.eq('synthesis', op.times(x), a[:n])
    else:
        a, out = jnp.zeros(m, dtype=x.dtype).at[:n].set(x), []
        for i in range(lev):
            a, dt = wave_ref(a, W.dec_lo, W.dec_hi)
            out.insert(0, dt)
        c.eq('analysis', op.times(x), jnp.concatenate([a] + out))


for w, lev, ns in (('db2', 1, (8, 7)), ('db2', 2, (16,)), ('db3', 1, (16, 12)), ('sym4', 1, (16,)), ('bior2.2', 1, (16,)), ('rbio3.1', 2, (16,)), ('coif1', 1, (16,))):
    for b in (False, True):
        add('C04', 'dwt[%s,level %d%s] filter bank' % (w, lev, ',basis' if b else ''), lambda c, d, x, w=w, lev=lev, b=b: f_wave(c, d, x, w, lev, b), args=[Param('x', ('n',) if not b else (lambda d: 1 << (d['n'] - 1).bit_length(),))],
            dims=('n',), sym=False, tol=1e-5, grid=list(ns), num=[32, 29])


def f_wave_axes(c, d, X, ax):
    """2-D transform along the axes = 2-D transform of the moved slices"""
    s = X.shape
    op = lop.dwt2D(s, axes=ax)
    n, m = s[ax[0]], s[ax[1]]
    one = lop.dwt2D((n, m))
    mv = lambda Z: jnp.moveaxis(Z, ax, (-2, -1))
    T, M = mv(op.times(X)), mv(X)
    Y = op.times(X) * 2. + 1.
    B, N = mv(op.trans(Y)), mv(Y)
    for i in range(M.shape[0]) if M.ndim == 3 else (None,):
        c.eq('slice %s' % i, T if i is None else T[i], one.times(M if i is None else M[i]))
        c.eq('slice of the adjoint %s' % i, B if i is None else B[i], one.trans(N if i is None else N[i]))


for sh, ax in (((2, 'n', 'm'), (1, 2)), (('n', 2, 'm'), (2, 0)), (('n', 'm'), (1, 0)), ((2, 'n', 'm'), (-2, -1))):
    add('C03', 'dwt2D[%d-D,axes %d %d]' % ((len(sh),) + ax), lambda c, d, X, ax=ax: f_wave_axes(c, d, X, ax), args=[Param('X', sh)], dims=('n', 'm'), sym=False, tol=1e-5, grid=[(2, 4), (3, 2)], num=[(8, 6), (5, 4)])


def f_apply_columns(c, d, A, x):
    for I in ([0], [d['n'] - 1, 0], list(range(d['n']))):
        z = jnp.where(jnp.isin(jnp.arange(d['n']), jnp.asarray(I)), x, 0.)
        c.eq('T_I x for I=%s' % I, lop.matrix(A).apply_columns(x, jnp.asarray(I)), A @ z)


for kx in 'fc':
    add('C06', 'apply_columns[%s]' % kx, f_apply_columns, args=[Param('A', ('m', 'n'), kx), Param('x', ('n',), kx)], dims=('m', 'n'), sym=False, grid=[(2, 2), (2, 3)], num=[(4, 5)])

# ---------------------------------------------------------------- C05 invertibility / orthonormality
def iso(name, mk, xs, ys, kx, right=True, **k):
    """trans(times(x)) = x (isometry) and, for bases, times(trans(y)) = y; energy is preserved"""
    def fn(c, d, x, y):
        op = mk(d)
        tx = op.times(x)
        c.eq('trans(times(x)) = x', op.trans(tx), x)
        if right:
            c.eq('times(trans(y)) = y', op.times(op.trans(y)), y)
        c.eq('energy preserved', jnp.sum(jnp.real(jnp.conj(tx) * tx)), jnp.sum(jnp.real(jnp.conj(x) * x)))
    add('C05', name, fn, args=[Param('x', xs, kx), Param('y', ys, kx)], **k)


iso('fourier_basis', lambda d: lop.fourier_basis(d['n']), ('n',), ('n',), 'c', dims=('n',), sym=False, grid=[1, 2, 3, 4, 5], num=[8, 15])
iso('cosine_basis', lambda d: lop.cosine_basis(d['n']), ('n',), ('n',), 'f', dims=('n',), sym=False, grid=[2, 3, 4, 5], num=[8, 15])
iso('walsh_hadamard_basis', lambda d: eager(lop.walsh_hadamard_basis, d['n']), ('n',), ('n',), 'f', dims=('n',), sym=False, grid=[2, 4, 8], num=[16])
iso('identity', lambda d: lop.identity(d['n']), ('n',), ('n',), 'c', dims=('n',))
iso('flipud', lambda d: lop.flipud(d['n']), ('n',), ('n',), 'c', dims=('n',))
iso('reshape', lambda d: eager(lop.reshape, (d['n'], d['m']), (d['m'], d['n'])), ('n', 'm'), ('m', 'n'), 'c', dims=('n', 'm'), sym=False, grid=[(2, 2), (2, 3)])
iso('reshape[F]', lambda d: eager(lop.reshape, (d['n'], d['m']), (d['m'], d['n']), order='F'), ('n', 'm'), ('m', 'n'), 'c', dims=('n', 'm'), sym=False,
    grid=[(2, 2), (2, 3)])
for w, lev, ns in (('haar', 1, (2, 4, 8)), ('haar', 2, (4, 8)), ('haar', 3, (8,)), ('db2', 1, (8,)), ('db3', 1, (16,)), ('sym4', 1, (16,)),
                   ('coif1', 1, (16,))):
    for b in (False, True):
        iso('dwt[%s,level %d%s]' % (w, lev, ',basis' if b else ''), lambda d, w=w, lev=lev, b=b: lop.dwt(d['n'], w, lev, basis=b), ('n',), ('n',), 'f',
            dims=('n',), sym=False, grid=list(ns), num=[16, 32], tol=1e-5)
    if w in ('haar', 'db2'):
        iso('dwt2D[%s,level %d]' % (w, lev), lambda d, w=w, lev=lev: lop.dwt2D((d['n'], d['n']), w, lev), ('n', 'n'), ('n', 'n'), 'f', dims=('n',),
            sym=False, grid=list(ns[:2]), num=[8, 16], tol=1e-5)


def f_dwtodd(c, d, x):
    """any length: the padded transform is an isometry, reconstruction returns the signal"""
    op = lop.dwt(d['n'], level=1)
    tx = op.times(x)
    c.eq('reconstruction', op.trans(tx), x)
    c.eq('energy', jnp.sum(tx * tx), jnp.sum(x * x))


add('C05', 'dwt[haar,any length]', f_dwtodd, args=[Param('x', ('n',))], dims=('n',), sym=False, grid=[2, 3, 5, 6, 7], num=[9, 13], tol=1e-5)


def inv(name, f, g, kx='f', **k):
    def fn(c, d, x):
        A, B = f(d), g(d)
        c.eq('inverse after forward', B.times(A.times(x)), x)
        c.eq('forward after inverse', A.times(B.times(x)), x)
        c.eq('adjoints invert', B.trans(A.trans(x)), x)
    add('C05', name, fn, args=[Param('x', ('n',), kx)], dims=('n',), **k)


for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]
    inv('heaviside/inv_heaviside' + t, lambda d: lop.heaviside(d['n']), lambda d: lop.inv_heaviside(d['n']), kx, grid=[1, 2, 3, 4, 5, 6])
    inv('cumsum/diff' + t, lambda d: lop.cumsum(d['n']), lambda d: lop.diff(d['n']), kx, grid=[1, 2, 3, 4, 5, 6])
    inv('unnormalized heaviside/inv_heaviside' + t, lambda d: lop.heaviside(d['n'], normalized=False), lambda d: lop.inv_heaviside(d['n'], normalized=False),
        kx, grid=[1, 2, 3, 4, 5])
def f_dfb_frame(c, d, x):
    op = lop.dirac_fourier_basis(d['n'])
    c.eq('frame operator is 2I', op.times(op.trans(x)), 2 * x)


add('C05', 'dirac_fourier_basis tight frame', f_dfb_frame, args=[Param('x', ('n',), 'c')], dims=('n',), sym=False, grid=[1, 2, 3, 4], num=[8],
    targets=('lop.dirac_fourier_basis',))

# ---------------------------------------------------------------- C06 matrix views
for kx in 'fc':
    t = '[%s]' % {'f': 'real', 'c': 'complex'}[kx]
    R = kx == 'f'

    def f_mat(c, d, A, R=R):
        op = op_of(A, R)
        m, n = A.shape
        c.eq('to_matrix', lop.to_matrix(op), A)
        c.eq('to_adjoint_matrix', lop.to_adjoint_matrix(op), H(A))
        c.eq('to_complex_matrix', lop.to_complex_matrix(op), A)
        c.static('sizes', (op.input_size, op.output_size, op.input_ndim, op.output_ndim) == (n, m, 1, 1), '')
        c.static('shapes', (op.input_shape, op.output_shape) == ((n,), (m,)), '')
        for j in range(n):
            c.eq('column', lop.column(op, j), A[:, j])
            c.eq('method column', op.column(j), A[:, j])
        idx = jnp.array(list(range(n))[::-1][:2])
        c.eq('columns', lop.columns(op, idx), A[:, idx])
    add('C06', 'matrix views' + t, f_mat, args=[Param('A', ('m', 'n'), kx)], dims=('m', 'n'), sym=False, grid=MN + [(2, 3)], num=[(4, 5)],
        targets=('lop.to_matrix', 'lop.to_adjoint_matrix', 'lop.to_complex_matrix', 'lop.column', 'lop.columns'))

    def f_mat2(c, d, A, R=R):
        """operators on arrays: the matrix acts on flattened arrays"""
        n, m = d['n'], d['m']
        op = lop.Operator(times=lambda X: (A @ X.reshape(-1)).reshape(m, n), trans=lambda Y: (H(A) @ Y.reshape(-1)).reshape(n, m), shape=((m, n), (n, m)), real=R)
        c.eq('to_matrix', lop.to_matrix(op), A)
        c.eq('to_adjoint_matrix', lop.to_adjoint_matrix(op), H(A))
        c.static('sizes', (op.input_size, op.output_size, op.input_ndim, op.output_ndim) == (n * m, n * m, 2, 2), '')
        c.static('shapes', (op.input_shape, op.output_shape) == ((n, m), (m, n)), '')
        # vectors to arrays, arrays to vectors
        up = lop.Operator(times=lambda x: (A @ x).reshape(m, n), trans=lambda Y: H(A) @ jnp.ravel(Y @ jnp.eye(n)), shape=((m, n), (m * n,)), real=R)
        dn = lop.Operator(times=lambda X: A @ jnp.ravel(X @ jnp.eye(n)), trans=lambda y: (H(A) @ y).reshape(m, n), shape=((m * n,), (m, n)), real=R)
        for op, w in ((up, 'vector to array'), (dn, 'array to vector')):
            for v, M, ref in (('to_matrix, ', lop.to_matrix(op), A), ('to_adjoint_matrix, ', lop.to_adjoint_matrix(op), H(A)), ('to_complex_matrix, ', lop.to_complex_matrix(op), A + 0j)):
                c.shape(v + w, M, (m * n, m * n))
                c.eq(v + w, M, ref)
    add('C06', 'matrix views of array operators' + t, f_mat2, args=[Param('A', (lambda d: d['n'] * d['m'], lambda d: d['n'] * d['m']), kx)],
        dims=('n', 'm'), sym=False, grid=[(1, 2), (2, 1), (2, 2)], num=[(2, 3)], targets=('lop.to_matrix', 'lop.to_adjoint_matrix'))

    def f_mat3(c, d, A, w, R=R):
        c.eq('matrix', lop.to_matrix(lop.matrix(A)), A)
        c.eq('matrix adjoint', lop.to_adjoint_matrix(lop.matrix(A)), H(A))
        c.eq('diagonal', lop.to_matrix(lop.diagonal(w)), jnp.diag(w))
        c.eq('diagonal adjoint', lop.to_adjoint_matrix(lop.diagonal(w)), jnp.diag(jnp.conj(w)))
    add('C06', 'matrix of matrix/diagonal' + t, f_mat3, args=[Param('A', ('m', 'n'), kx), Param('w', ('n',), kx)], dims=('m', 'n'), sym=False, grid=MN,
        targets=('lop.to_matrix', 'lop.matrix', 'lop.diagonal'))


def f_dottest(c, d, A, B):
    """a correct adjoint passes, a wrong one fails (whatever the sign of the inner products)"""
    good = lop.Operator(times=lambda x: A @ x, trans=lambda y: A.T @ y, shape=A.shape)
    c.assume(jnp.max(jnp.abs(B)) > 0.1)
    bad = lop.Operator(times=lambda x: A @ x, trans=lambda y: (A + B).T @ y, shape=A.shape)
    for k in range(6):
        key = jax.random.PRNGKey(k)
        c.true('correct adjoint passes dot_test_real', lop.dot_test_real(key, good))
        c.true('wrong adjoint fails dot_test_real', ~lop.dot_test_real(key, bad))
        c.true('correct adjoint passes rdot_test_complex', lop.rdot_test_complex(key, good))
        c.true('wrong adjoint fails rdot_test_complex', ~lop.rdot_test_complex(key, bad))


add('C06', 'dot tests', f_dottest, args=[Param('A', ('m', 'n')), Param('B', ('m', 'n'), nonzero=True)], dims=('m', 'n'), sym=False, deduce=False,
    grid=[(2, 3), (4, 3)], num=[(5, 5)], styles=('normal', 'big', 'int', 'neg'), targets=('lop.dot_test_real', 'lop.rdot_test_complex'))


def f_dottest_c(every):
    def fn(c, d, A, B):
        c.assume(jnp.max(jnp.abs(B)) > 0.1)
        good = lop.Operator(times=lambda x: A @ x, trans=lambda y: H(A) @ y, shape=A.shape, real=False)
        for bad in (lop.Operator(times=lambda x: A @ x, trans=lambda y: H(A + B) @ y, shape=A.shape, real=False), lop.Operator(times=lambda x: A @ x, trans=lambda y: H(A) @ y * 1j, shape=A.shape, real=False)):
            keys = [jax.random.PRNGKey(k) for k in range(24)]
            hits = [not bool(lop.dot_test_complex(k, bad)) for k in keys]
            if every:
                c.static('a wrong adjoint fails dot_test_complex for every key', all(hits), 'accepted for %d of %d keys' % (hits.count(False), len(hits)))
            else:
                c.static('a wrong adjoint fails dot_test_complex for some key', any(hits), '')
        if not every:
            c.static('correct adjoint passes dot_test_complex', all(bool(lop.dot_test_complex(k, good)) for k in keys), '')
    return fn


for every in (False, True):
    add('C06', 'dot_test_complex rejects' + (' for every key' if every else ''), f_dottest_c(every), args=[Param('A', ('m', 'n'), 'c'), Param('B', ('m', 'n'), 'c', nonzero=True)], dims=('m', 'n'), sym=False, deduce=False,
        grid=[(2, 3), (4, 3)], num=[(5, 5)], styles=('normal', 'big'), targets=('lop.dot_test_complex',))


DSHIM = loops.Random()


def f_dotaccept(test, real):
    """the test accepts an operator with the correct adjoint, whatever vectors are drawn"""
    def fn(c, d, A):
        DSHIM.draws.clear()
        good = lop.Operator(times=lambda x: A @ x, trans=lambda y: H(A) @ y, shape=((d['m'],), (d['n'],)) if c.mode == 'trace' and real else (d['m'], d['n']), real=real)
        for k in range(1 if c.mode == 'trace' else 6):
            key = DSHIM.PRNGKey(k) if c.mode == 'trace' else jax.random.PRNGKey(k)
            c.true('correct adjoint passes', getattr(lop, test)(key, good))
    return fn


for test, kx in (('dot_test_real', 'f'), ('dot_test_complex', 'c'), ('rdot_test_complex', 'f')):
    add('C06', '%s accepts' % test, f_dotaccept(test, kx == 'f'), args=[Param('A', ('m', 'n'), kx)], dims=('m', 'n'), grid=[(2, 3), (4, 3)],
        libs=[(lop_util, 'random', DSHIM)] if hasattr(lop_util, 'random') else [], num=[(5, 5)], styles=('normal', 'big'), targets=('lop.' + test,))


def f_norm(c, d, A, R=True):
    op = op_of(A, R)
    s = jnp.linalg.svd(A, compute_uv=False)[0]
    c.eq('upper frame bound is the largest singular value', lop.upper_frame_bound(op), s)
    e = lop.normest(op)
    c.le('normest is a lower bound', e, s * (1 + 1e-9))
    e2 = lop.normest(op, max_iters=4000, error_tolerance=1e-14)
    c.le('normest converges to the largest singular value', jnp.abs(e2 - s), 1e-3 * s)


for kx in 'fc':
    add('C06', 'norms[%s]' % kx, lambda c, d, A, kx=kx: f_norm(c, d, A, kx == 'f'), args=[Param('A', ('m', 'n'), kx)], dims=('m', 'n'), sym=False, deduce=False,
        grid=[(2, 3), (3, 2), (4, 4)], num=[(6, 5)], styles=('normal', 'big', 'int', 'ones'), targets=('lop.normest', 'lop.upper_frame_bound'))


def f_normconst(c, d, a):
    """on scaled isometries the estimate is exact after any number of iterations"""
    n = d['n']
    for op in (lop.scalar_mult(a, n), lop.scale(lop.fourier_basis(n), a), lop.scale(lop.flipud(n), a)):
        c.eq('norm of a scaled isometry', lop.normest(op), jnp.abs(a))
    c.eq('jit', lop.normest_jit(lop.identity(n)), 1.0)


add('C06', 'normest of scaled isometries', f_normconst, args=[Param('a', (), nonzero=True)], dims=('n',), sym=False, deduce=False, grid=[1, 2, 5], num=[8],
    targets=('lop.normest',))


# ---------------------------------------------------------------- C04: omitted arguments take their documented values
KEY4 = jax.random.PRNGKey(4)
DEFAULTS = [
    ('identity', lambda n, **k: lop.identity(n), lambda n, **k: lop.identity(n, n)),
    ('zero', lambda n, **k: lop.zero(n), lambda n, **k: lop.zero(n, n)),
    ('heaviside', lambda n, **k: lop.heaviside(n), lambda n, **k: lop.heaviside(n, normalized=True)),
    ('inv_heaviside', lambda n, **k: lop.inv_heaviside(n), lambda n, **k: lop.inv_heaviside(n, normalized=True)),
    ('cumsum', lambda n, **k: lop.cumsum(n), lambda n, **k: lop.heaviside(n, normalized=False)),
    ('diff', lambda n, **k: lop.diff(n), lambda n, **k: lop.inv_heaviside(n, normalized=False)),
    ('first_derivative', lambda n, **k: lop.first_derivative(n), lambda n, **k: lop.first_derivative(n, dx=1., kind='centered')),
    ('second_derivative', lambda n, **k: lop.second_derivative(n), lambda n, **k: lop.second_derivative(n, dx=1.)),
    ('convolve', lambda n, h: lop.convolve(n, h), lambda n, h: lop.convolve(n, h, offset=0)),
    ('dot', lambda n, h: lop.dot(h), lambda n, h: lop.dot(h, adjoint=False)),
    ('dwt', lambda n, **k: lop.dwt(n), lambda n, **k: lop.dwt(n, wavelet='haar', level=1, basis=False)),
    ('fft', lambda n, **k: lop.fft(n), lambda n, **k: lop.fft(n, n, mode='r2c')),
    ('tv', lambda n, **k: lop.tv(n), lambda n, **k: lop.tv(n, 'regular')),
    ('windowed_op', lambda n, **k: lop.windowed_op(n, lop.flipud(2)), lambda n, **k: lop.windowed_op(n, lop.flipud(2), overlap=0)),
    ('gaussian_dict', lambda n, **k: lop.gaussian_dict(KEY4, n), lambda n, **k: lop.gaussian_dict(KEY4, n, n, normalize_atoms=True)),
    ('rademacher_dict', lambda n, **k: lop.rademacher_dict(KEY4, n), lambda n, **k: lop.rademacher_dict(KEY4, n, n, normalize_atoms=True)),
    ('sparse_binary_dict', lambda n, **k: lop.sparse_binary_dict(KEY4, 3 * n), lambda n, **k: lop.sparse_binary_dict(KEY4, 3 * n, 3 * n, d=10, normalize_atoms=True, dense=False)),
    ('sparse_binary_dict[dense]', lambda n, **k: lop.sparse_binary_dict(KEY4, 3 * n, dense=True), lambda n, **k: lop.sparse_binary_dict(KEY4, 3 * n, 3 * n, d=10, normalize_atoms=True, dense=True)),
    ('random_orthonormal_rows_dict', lambda n, **k: lop.random_orthonormal_rows_dict(KEY4, n), lambda n, **k: lop.random_orthonormal_rows_dict(KEY4, n, n)),
    ('binary_dict_alg', lambda n, **k: lop.binary_dict_alg(KEY4, n), lambda n, **k: lop.binary_dict_alg(KEY4, n, n)),
]
DEFAULTS2 = [
    ('convolve2D', lambda h: lop.convolve2D((4, 4), h), lambda h: lop.convolve2D((4, 4), h, offset=(0, 0))),
    ('convolveND', lambda h: lop.convolveND((4, 4), h), lambda h: lop.convolveND((4, 4), h, offset=(0, 0), axes=(0, 1))),
    ('dwt2D', lambda h: lop.dwt2D((4, 4)), lambda h: lop.dwt2D((4, 4), wavelet='haar', level=1, axes=(0, 1), basis=False)),
    ('reshape', lambda h: lop.reshape((4, 4), (2, 8)), lambda h: lop.reshape((4, 4), (2, 8), order='C')),
    ('tv2D', lambda h: lop.tv2D((4, 4)), lambda h: lop.tv2D((4, 4), 'regular')),
]


def f_defaults(c, d, h, x, x3):
    for nm, mk, ref in DEFAULTS:
        a, b = (mk(4, h=h), ref(4, h=h)) if nm in ('convolve', 'dot') else (eager(mk, 4), eager(ref, 4))
        c.static('%s: shape with the arguments omitted' % nm, tuple(a.shape) == tuple(b.shape), (a.shape, b.shape))
        v = (x3 if nm.startswith('sparse') else x)[:b.shape[1]]
        u = b.times(v)
        c.eq('%s: times with the arguments omitted' % nm, a.times(v), u)
        c.eq('%s: trans with the arguments omitted' % nm, a.trans(u), b.trans(u))


add('C04', 'omitted arguments', f_defaults, args=[Param('h', (4,)), Param('x', (4,)), Param('x3', (12,))], grid=[{}], num=[{}],
    samples=2, targets=('lop',))


def f_defaults2(c, d, h, X):
    for nm, mk, ref in DEFAULTS2:
        a, b = (mk(h), ref(h)) if 'conv' in nm else (eager(mk, None), eager(ref, None))
        c.static('%s: shape with the arguments omitted' % nm, tuple(a.shape) == tuple(b.shape), (a.shape, b.shape))
        u = b.times(X)
        c.eq('%s: times with the arguments omitted' % nm, a.times(X), u)
        if nm != 'tv2D':
            c.eq('%s: trans with the arguments omitted' % nm, a.trans(u), b.trans(u))


add('C04', 'omitted arguments, arrays', f_defaults2, args=[Param('h', (2, 3)), Param('X', (4, 4))], grid=[{}], num=[{}], samples=2,
    targets=('lop',))
