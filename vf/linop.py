"""Contract schema for linear operators: `times` and `trans` have the declared shapes, are linear, and
`trans` is the adjoint of `times` -- decided on the integral kernels <T e_j,e_i> = <e_j,T* e_i> with
symbolic i, j, for all parameter values and (where the trace allows) all sizes."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from . import terms as T, smt, prove
from .terms import P, ZERO, ONE
from .jaxsym import Arr, Interp, Unsupported, dim
from .contract import Contract, Param, rdim, sym_array, comps, DT, CALL_CONTRACTS


def delta_array(shape, kind, at, imag=False):
    shape = tuple(dim(d) for d in shape)

    def fn(idx):
        c = T.conj(*[T.eq(i, j) for i, j in zip(idx, at)])
        if c not in (T.TRUE, T.FALSE) and T.CTX.decide is not None:
            d = T.CTX.decide(c)
            c = T.TRUE if d is True else T.FALSE if d is False else c
        b = T.br(c)
        if kind == 'c':
            return (ZERO, b) if imag else (b, ZERO)
        return b
    return Arr(shape, kind, fn)


class LinOp(Contract):
    """make(d, *params) -> Operator; xs, ys: shapes of domain/codomain elements; kx, ky: 'f' or 'c'.
    adjoint=False: only shapes and linearity of times"""

    def __init__(self, name, make, dims=('n',), xs=('n',), ys=None, kx='f', ky=None, params=(), adjoint=True,
                 matrix_shape=True, complex_linear=True, max_kernel=700, **kw):
        self.make, self.xs, self.ys = make, xs, ys if ys is not None else xs
        self.kx, self.ky = kx, ky or kx
        self.params = list(params)
        self.max_kernel = max_kernel
        self.adjoint = adjoint
        self.matrix_shape = matrix_shape
        self.complex_linear = complex_linear
        args = self.params + [Param('@x', self.xs, self.kx), Param('@x2', self.xs, self.kx), Param('@y', self.ys, self.ky)]
        super().__init__(name, self._fn, args=args, dims=dims, **kw)

    def _fn(self, c, d, *a):
        ps, (x, x2, y) = a[:-3], a[-3:]
        op = self.make(d, *ps)
        xs = tuple(rdim(s, d) for s in self.xs)
        ys = tuple(rdim(s, d) for s in self.ys)
        tx = op.times(x)
        c.shape('times output', tx, ys)
        ty = op.trans(y)
        c.shape('trans output', ty, xs)
        c.eq('times additive', op.times(2.0 * x - 0.5 * x2), 2.0 * tx - 0.5 * op.times(x2))
        if self.kx == 'c' and self.ky == 'c' and self.complex_linear:
            c.eq('times complex homogeneous', op.times(1j * x), 1j * tx)
            c.eq('<T x,y> = <x,T* y>', jnp.sum(jnp.conj(tx) * y), jnp.sum(jnp.conj(x) * ty))
        else:
            c.eq('Re<T x,y> = Re<x,T* y>', jnp.sum(jnp.real(jnp.conj(tx) * y)), jnp.sum(jnp.real(jnp.conj(x) * ty)))
        self.static_checks(c, op, xs, ys)

    def static_checks(self, c, op, xs, ys):
        if self.matrix_shape:
            def size(s):
                n = 1
                for v in s:
                    n = n * v
                return n
            sh = op.shape
            if len(sh) == 2:
                def of(v):
                    return size(v) if isinstance(v, tuple) else v
                ok = (of(sh[0]) == size(ys)) and (of(sh[1]) == size(xs))
                c.static('declared shape is (codomain, domain)', bool(ok), 'shape %s, maps %s -> %s' % (sh, xs, ys))
                if all(isinstance(v, int) for v in tuple(xs) + tuple(ys)):
                    # what the operator says about its arrays is what it takes and returns
                    c.static('declared input shape', tuple(op.input_shape) == tuple(xs) or isinstance(sh[1], (int, np.integer)) and size(xs) == sh[1], (op.input_shape, xs))
                    c.static('declared output shape', tuple(op.output_shape) == tuple(ys) or isinstance(sh[0], (int, np.integer)) and size(ys) == sh[0], (op.output_shape, ys))
                if isinstance(sh[0], tuple):
                    c.static('declared output dims', tuple(sh[0]) == tuple(ys), '%s vs %s' % (sh[0], ys))
                if isinstance(sh[1], tuple):
                    c.static('declared input dims', tuple(sh[1]) == tuple(xs), '%s vs %s' % (sh[1], xs))

    def trace(self, jd):
        def st(shape, kind):
            return jax.ShapeDtypeStruct(tuple(rdim(d, jd) for d in shape), DT[kind])
        ps = [p.struct(jd) for p in self.params]

        op = None
        if not ps and all(isinstance(v, int) for v in jd.values()):
            op = self.make(jd)      # no traced parameters: the constructor runs as it is

        def mk(*a):
            return op if op is not None else self.make(jd, *a)

        def ft(*a):
            return mk(*a[:-1]).times(a[-1])

        def fa(*a):
            return mk(*a[:-1]).trans(a[-1])
        jt = jax.make_jaxpr(ft)(*ps, st(self.xs, self.kx))
        ja = jax.make_jaxpr(fa)(*ps, st(self.ys, self.ky))
        return (jt, ja), None

    def obligations(self, cj, c, polys, hyps, scope, timeout):
        jt, ja = cj
        obs = []
        dec = smt.Decider(hyps)
        T.CTX.decide = dec
        last = Interp()
        try:
            self_args = self.args
            self.args = self.params
            params = self.sym_params(polys)
            self.args = self_args
            xs = tuple(dim(rdim(d, polys)) for d in self.xs)
            ys = tuple(dim(rdim(d, polys)) for d in self.ys)
            conc = all(isinstance(d, int) for d in xs + ys)
            if conc:
                nx = int(np.prod(xs)) if xs else 1
                ny = int(np.prod(ys)) if ys else 1
                if nx * ny > self.max_kernel:
                    raise Unsupported('kernel too large')

            def ev(j, inp):
                it = Interp(call_contracts=CALL_CONTRACTS)
                (o,) = it.eval_closed(j, params + [inp])
                last.prims.update(it.prims)
                last.axioms_used |= it.axioms_used
                return o

            def frees(shape, tag):
                if all(isinstance(d, int) for d in shape) and conc:
                    return [tuple(P(i) for i in ix) for ix in itertools.product(*[range(d) for d in shape])]
                opts = []
                for k, d in enumerate(shape):
                    if isinstance(d, int) and d <= 6:
                        opts.append([P(i) for i in range(d)])
                    else:
                        v = T.var('%s%d' % (tag, k), 'I')
                        opts.append([v])
                        rng.append(T.conj(T.ge(v, 0), T.lt(v, P(d))))
                return list(itertools.product(*opts))
            rng = []
            qi, qj = frees(ys, 'i'), frees(xs, 'j')
            for r in rng:
                dec.add(r)
            H = list(hyps) + rng + self.param_hyps

            def shape_ob(o, want, nm):
                ok = len(o.shape) == len(want) and all(P(a) is P(b) or dec(T.eq(P(a), P(b))) is True for a, b in zip(o.shape, want))
                obs.append(prove.Ob('%s: %s' % (self.name, nm), 'proved' if ok else 'refuted', 'shape', 0.0,
                                    detail='got %s want %s' % (o.shape, want), scope=scope))
                return ok
            for (j, ks, shp, nm, q) in ((jt, self.kx, xs, 'times', qi), (ja, self.ky, ys, 'trans', qj)):
                a = sym_array('@v', shp, ks)
                o = ev(j, a)
                if not shape_ob(o, ys if nm == 'times' else xs, nm + ' output shape'):
                    return obs, last
                names = frozenset(['@v', '@v.re', '@v.im'])
                bad = None
                for ix in q:
                    for cc in comps(o[ix], o.kind):
                        dg = prove.lin_degree(cc, names)
                        if dg is None or not dg <= {1}:
                            bad = (ix, cc)
                            break
                    if bad:
                        break
                obs.append(prove.Ob('%s: %s is linear' % (self.name, nm), 'proved' if bad is None else 'unknown', 'degree',
                                    0.0, detail='' if bad is None else T.show(bad[1])[:300], scope=scope))
                if bad:
                    return obs, last
            res = {}
            cx = (False, True) if self.kx == 'c' else (False,)
            cy = (False, True) if self.ky == 'c' else (False,)
            for jx in qj:
                for im in cx:
                    res['t', jx, im] = ev(jt, delta_array(xs, self.kx, jx, im))
            if self.adjoint:
                for ix in qi:
                    for im in cy:
                        res['a', ix, im] = ev(ja, delta_array(ys, self.ky, ix, im))
            for jx in qj:
                for ix in qi:
                    if self.kx == 'c' and self.ky == 'c' and self.complex_linear:
                        u, v = res['t', jx, False][ix], res['t', jx, True][ix]
                        u = u if isinstance(u, tuple) else (u, ZERO)
                        v = v if isinstance(v, tuple) else (v, ZERO)
                        for a, b in ((v[0], -u[1]), (v[1], u[0])):
                            ob = prove.prove_eq('%s: T(i e_j) = i T e_j' % self.name, a, b, H, timeout, scope)
                            obs.append(ob)
                            if ob.status != 'proved':
                                ob.detail += ' i=%s j=%s' % (ix, jx)
                                return obs, last
                    if not self.adjoint:
                        continue
                    for imx in cx:
                        for imy in cy:
                            ot, oa = res['t', jx, imx], res['a', ix, imy]
                            kt, ka = comps(ot[ix], ot.kind), comps(oa[jx], oa.kind)
                            a = kt[int(imy)] if int(imy) < len(kt) else ZERO
                            b = ka[int(imx)] if int(imx) < len(ka) else ZERO
                            ob = prove.prove_eq('%s: <T e_j,e_i> = <e_j,T* e_i> [%d%d]' % (self.name, imx, imy), a, b, H,
                                                timeout, scope)
                            obs.append(ob)
                            if ob.status != 'proved':
                                ob.detail += ' i=%s j=%s' % (ix, jx)
                                return obs, last
        finally:
            T.CTX.decide = None
        return obs, last
