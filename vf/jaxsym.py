"""Symbolic semantics of jaxprs over terms (see terms.py).

A jaxpr is obtained by JAX's own tracing of the repository's functions, so what is
interpreted here is the program JAX compiles and runs."""
import math
from fractions import Fraction
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from . import terms as T
from .terms import P, ZERO, ONE, TRUE, FALSE, Poly, Bool

LIMIT = 4096


class Unsupported(Exception):
    pass


def dim(x):
    """jax dimension -> int or Poly"""
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Poly):
        c = x.const
        return int(c) if c is not None else x
    return dimexpr(x)


def dimexpr(d):
    r = ZERO
    for mon, c in d.monomials():
        q = P(int(c))
        for atom, e in mon.items():
            v = atom.to_var()
            if v is not None:
                x = T.var('#' + v, 'I')
            else:
                ops = [P(dim(o)) if not isinstance(o, int) else P(o) for o in atom.operands]
                if atom.operation == 'floordiv':
                    x = T.pfloordiv(*ops)
                elif atom.operation == 'mod':
                    x = T.pmod(*ops)
                elif atom.operation == 'non_negative':
                    x = T.ppos(ops[0])
                else:
                    raise Unsupported('dim op %s' % atom.operation)
            q = q * T.ppow(x, e)
        r = r + q
    c = r.const
    return int(c) if c is not None else r


def kind_of(dtype):
    dtype = np.dtype(dtype) if not hasattr(dtype, 'kind') else dtype
    k = dtype.kind
    if k == 'V':   # bfloat16
        return 'f'
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c'}[k]


class Arr:
    __slots__ = ('shape', 'kind', 'fn', 'memo', 'dtype', 'meta', 'val')

    def __init__(self, shape, kind, fn, dtype=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.fn = fn
        self.memo = {}
        self.dtype = dtype
        self.meta = None
        self.val = None       # concrete value, when known (constants; folded through PRNG primitives)

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if not self.shape and idx:
            idx = ()          # scalar operands broadcast (weak-typed literals)
        idx = tuple(ZERO if d == 1 and isinstance(d, int) else P(i) for i, d in zip(idx, self.shape)) if len(idx) == len(self.shape) else idx
        r = self.memo.get(idx)
        if r is None:
            if len(idx) != len(self.shape):
                raise AssertionError('rank mismatch %s %s' % (idx, self.shape))
            r = self.fn(idx)
            self.memo[idx] = r
        return r

    def item(self):
        return self[()]

    @property
    def concrete(self):
        return all(isinstance(d, int) for d in self.shape)

    def elems(self):
        """iterate (idx, elem) for concrete shapes"""
        for idx in itertools.product(*[range(d) for d in self.shape]):
            yield idx, self[idx]


def bshape(a, b):
    """result shape of an elementwise primitive (scalars and size-1 axes may be broadcast implicitly)"""
    if len(a) != len(b):
        return a if len(a) > len(b) else b
    return tuple(y if x == 1 and isinstance(x, int) else x for x, y in zip(a, b))


def opaque(c):
    r = Arr(c.shape, 'k', None, None)
    r.val = c
    return r


def zero_of(kind):
    return {'f': ZERO, 'i': ZERO, 'b': FALSE, 'c': (ZERO, ZERO)}[kind]


def from_np(x):
    x = np.asarray(x)
    k = kind_of(x.dtype)

    def fn(idx):
        try:
            ii = tuple(int(i.const) for i in idx)
        except TypeError:
            # symbolic index into a constant table
            for ax, i in enumerate(idx):
                if i.const is None:
                    r = None
                    for v in reversed(range(x.shape[ax])):
                        e = fn(idx[:ax] + (P(v),) + idx[ax + 1:])
                        r = e if r is None else elem_ite(T.eq(i, v), e, r, k)
                    return r
        v = x[ii]
        if k == 'b':
            return T.B(v)
        if k == 'c':
            return (T.float_const(np.real(v)), T.float_const(np.imag(v)))
        if k == 'i':
            return T.const(int(v))
        return T.float_const(v)
    r = Arr(x.shape, k, fn, x.dtype)
    r.val = x
    return r


def elem_ite(c, a, b, kind):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if kind == 'b':
        return T.bite(c, a, b)
    if kind == 'c':
        return (T.ite(c, a[0], b[0]), T.ite(c, a[1], b[1]))
    return T.ite(c, a, b)


# ------------------------------------------------------------- scalar ops
def cmul(a, b):
    if a[0] is b[0] and a[1] is not ZERO and a[1] is -b[1]:
        return (T.mark_nonneg(a[0] * b[0] + a[1] * a[1]), ZERO)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def csub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def cinv(a):
    if a[1] is ZERO:
        return (T.pinv(a[0]), ZERO)
    d = T.pinv(a[0] * a[0] + a[1] * a[1])
    return (a[0] * d, -a[1] * d)


def cabs(a):
    if a[1] is ZERO:
        return T.pabs(a[0])
    if a[0] is ZERO:
        return T.pabs(a[1])
    return T.psqrt(a[0] * a[0] + a[1] * a[1])


def cosq(f):
    """cos(2*pi*f), f Fraction"""
    f = f % 1
    if f > Fraction(1, 2):
        f = 1 - f
    if f > Fraction(1, 4):
        return -cosq(Fraction(1, 2) - f)
    tab = {Fraction(0): ONE, Fraction(1, 4): ZERO, Fraction(1, 6): P(Fraction(1, 2)),
           Fraction(1, 8): T.sqrt_const(Fraction(1, 2)), Fraction(1, 12): T.sqrt_const(Fraction(3, 4))}
    if f in tab:
        return tab[f]
    if f == Fraction(1, 5):
        return (T.sqrt_const(5) - 1) * Fraction(1, 4)
    if f == Fraction(1, 10):
        return (T.sqrt_const(5) + 1) * Fraction(1, 4)
    return T.app('cosq', [P(f)])


def sinq(f):
    return cosq(f - Fraction(1, 4))


def pi_multiple(p):
    """p = c*pi with rational c -> c else None"""
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == '$PI':
            return Fraction(c)
    return None


def ufun(name, consts=None):
    def f(x):
        c = x.const
        if consts and c is not None and c in consts:
            return P(consts[c])
        return T.app(name, [x])
    return f


def polar(x, which):
    """cos / sin of atan2(b, a): a / |(a, b)|, b / |(a, b)| (atan2(0, 0) = 0)"""
    if len(x.terms) != 1:
        return None
    (m, c), = x.terms.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'app' or m[0][0].args[0] != 'atan2':
        return None
    b, a = m[0][0].args[1:]
    r2 = a * a + b * b
    return T.ite(T.eq(r2, 0), P(1 if which == 'cos' else 0), (a if which == 'cos' else b) * T.pinv(T.psqrt(r2)))


def s_cos(x):
    c = pi_multiple(x)
    if c is None:
        v = polar(x, 'cos')
        if v is not None:
            return v
    if c is not None:
        return cosq(c / 2)
    if x.terms and T.leading_neg(x):
        x = -x
    return T.app('cos', [x])


def s_sin(x):
    c = pi_multiple(x)
    if c is None:
        v = polar(x, 'sin')
        if v is not None:
            return v
    if c is not None:
        return sinq(c / 2)
    if x.terms and T.leading_neg(x):
        return -T.app('sin', [-x])
    return T.app('sin', [x])


def s_trunc(x):
    if x.sortI:
        return x
    c = x.const
    if c is not None:
        return P(math.trunc(c))
    if T.nonneg_syntactic(x):
        return T.pfloor(x)
    return T.ite(T.ge(x, 0), T.pfloor(x), -T.pfloor(-x))


def s_exp(x):
    if x is ZERO:
        return ONE
    return T.app('exp', [x])


def s_log(x):
    if x is ONE:
        return ZERO
    if len(x.terms) == 1:
        (m, c), = x.terms.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'exp' and m[0][1] == 1:
            return m[0][0].args[1]
    return T.app('log', [x])


def idiv(a, b):
    """C-style truncated integer division"""
    ac, bc = a.const, b.const
    if ac is not None and bc:
        return P(int(math.trunc(Fraction(ac, bc))))
    if T.CTX.decide is not None and T.CTX.decide(T.conj(T.ge(a, 0), T.gt(b, 0))) is True:
        return T.pfloordiv(a, b)
    return T.ite(T.ge(a, 0), T.ite(T.gt(b, 0), T.pfloordiv(a, b), -T.pfloordiv(a, -b)),
                 T.ite(T.gt(b, 0), -T.pfloordiv(-a, b), T.pfloordiv(-a, -b)))


def irem(a, b):
    return a - b * idiv(a, b)


def round_even(x):
    if x.sortI:
        return x
    c = x.const
    if c is not None:
        return P(round(Fraction(c)))
    return T.pfloor(x + Fraction(1, 2))


def s_pow(x, y):
    c = y.const
    if c is not None:
        c = Fraction(c)
        if c.denominator == 1 and abs(c) <= 64:
            return T.ppow(x, int(c))
        if c.denominator == 2 and abs(c) <= 16:
            r = T.ppow(T.psqrt(x), abs(c.numerator))
            return r if c > 0 else T.pinv(r)
    if x is ONE:
        return ONE
    return T.app('pow', [x, y])


UN_R = {
    'neg': lambda x: -x, 'sign': T.psign, 'abs': T.pabs, 'sqrt': T.psqrt,
    'rsqrt': lambda x: T.pinv(T.psqrt(x)), 'exp': s_exp, 'log': s_log, 'cos': s_cos, 'sin': s_sin,
    'tanh': ufun('tanh', {0: 0}), 'logistic': ufun('logistic'), 'erf': ufun('erf', {0: 0}), 'erf_inv': ufun('erf_inv', {0: 0}),
    'floor': T.pfloor, 'ceil': lambda x: -T.pfloor(-x), 'round': round_even,
    'log1p': lambda x: s_log(x + 1), 'expm1': lambda x: s_exp(x) - 1, 'square': lambda x: x * x,
    'tan': ufun('tan', {0: 0}), 'acos': ufun('acos'), 'asin': ufun('asin'), 'atan': ufun('atan'), 'sinh': ufun('sinh'), 'cosh': ufun('cosh'),
    'cbrt': ufun('cbrt'), 'lgamma': ufun('lgamma'), 'digamma': ufun('digamma'),
    'real': lambda x: x, 'conj': lambda x: x, 'imag': lambda x: ZERO, 'copy': lambda x: x, 'copy_p': lambda x: x,
    'stop_gradient': lambda x: x, 'reduce_precision': lambda x: x, 'optimization_barrier': lambda x: x,
}


def c_sign(a):
    if a[1] is ZERO:
        return (T.psign(a[0]), ZERO)
    i = T.pinv(cabs(a))
    # sign(0) = 0 is kept by the factor; 0 * (1/0) is excluded by definedness
    return (a[0] * i, a[1] * i)


UN_C = {
    'neg': lambda a: (-a[0], -a[1]), 'conj': lambda a: (a[0], -a[1]), 'copy': lambda a: a, 'copy_p': lambda a: a,
    'square': lambda a: cmul(a, a), 'sign': c_sign,
    'exp': lambda a: (s_exp(a[0]) * s_cos(a[1]), s_exp(a[0]) * s_sin(a[1])),
    'stop_gradient': lambda a: a,
}


class Interp:
    def __init__(self, loop_handler=None, call_contracts=None):
        self.loop_handler = loop_handler
        self.contracts = call_contracts or {}
        self.prims = set()
        self.defs = []        # recorded definedness conditions
        self.facts = []       # facts produced by contracts of opaque calls
        self.axioms_used = set()
        self.guard = []       # path conditions of enclosing branches
        self.assumes = []     # (vf_assume) facts from loop rules
        self.asserts = []     # (vf_assert) obligations from loop rules

    # --------------------------------------------------------------
    def eval_closed(self, cj, args):
        consts = [self.lift_const(c) for c in cj.consts]
        return self.eval(cj.jaxpr, consts, args)

    def lift_const(self, c):
        if isinstance(c, Arr):
            return c
        if hasattr(c, 'dtype') and jax.dtypes.issubdtype(c.dtype, jax.dtypes.prng_key):
            return opaque(c)
        return from_np(np.asarray(c))

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, core.Literal):
                val = v.val
                if isinstance(val, (bool, np.bool_)):
                    e = T.B(val)
                    return Arr((), 'b', lambda idx: e, v.aval.dtype)
                return from_np(np.asarray(val, dtype=v.aval.dtype)) if v.aval.dtype != jax.dtypes.float0 else from_np(np.asarray(val))
            return env[v]

        for v, a in zip(jaxpr.constvars, consts):
            env[v] = a
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.prim(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    # --------------------------------------------------------------
    def prim(self, eqn, ins):
        name = eqn.primitive.name
        self.prims.add(name)
        if ins and not name.startswith('vf_') and all(i.val is not None for i in ins) and any(i.kind == 'k' or (i.dtype is not None and np.dtype(i.dtype).kind == 'u')
                                                               for i in ins) and all(isinstance(d, int) for v in eqn.outvars for d in v.aval.shape):
            return self.fold(eqn, ins)
        m = getattr(self, 'p_' + name.replace('-', '_'), None)
        if m is not None:
            r = m(eqn, *ins)
            return r if isinstance(r, list) else [r]
        if name in UN_R:
            return [self.unary(name, eqn, ins[0])]
        if all(i.val is not None for i in ins):
            return self.fold(eqn, ins)
        raise Unsupported('primitive %s' % name)

    def fold(self, eqn, ins):
        """primitive applied to known constants only (PRNG keys and bits): run it"""
        self.axioms_used.add('constant folding by JAX execution')
        subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
        vals = [i.val if i.kind == 'k' else jnp.asarray(i.val) for i in ins]
        out = eqn.primitive.bind(*subfuns, *vals, **bp)
        outs = out if eqn.primitive.multiple_results else [out]
        return [opaque(o) if jax.dtypes.issubdtype(o.dtype, jax.dtypes.prng_key) else from_np(np.asarray(o)) for o in outs]

    def unary(self, name, eqn, x):
        k = x.kind
        if name == 'real' or name == 'imag':
            i = 0 if name == 'real' else 1
            return Arr(x.shape, 'f', lambda idx: x[idx][i])
        if name in ('copy', 'copy_p', 'optimization_barrier', 'reduce_precision', 'stop_gradient'):
            return x
        if k == 'c':
            if name == 'abs':
                return Arr(x.shape, 'f', lambda idx: cabs(x[idx]))
            if name == 'integer_pow':
                raise Unsupported('cpow')
            if name not in UN_C:
                raise Unsupported('complex ' + name)
            f = UN_C[name]
        else:
            f = UN_R[name]
            if name == 'sqrt' or name == 'rsqrt' or name == 'log':
                pass
        ok = kind_of(eqn.outvars[0].aval.dtype)
        return Arr(x.shape, ok, lambda idx: f(x[idx]), eqn.outvars[0].aval.dtype)

    # ---- binary
    def _bin(self, eqn, x, y, fr, fc=None):
        ok = kind_of(eqn.outvars[0].aval.dtype)
        shape = bshape(x.shape, y.shape)

        def fn(idx):
            a, b = x[idx], y[idx]
            if x.kind == 'c':
                if fc is None:
                    raise Unsupported('complex ' + eqn.primitive.name)
                return fc(a, b)
            return fr(a, b)
        return Arr(shape, ok, fn, eqn.outvars[0].aval.dtype)

    def p_add(self, e, x, y):
        return self._bin(e, x, y, lambda a, b: a + b, cadd)

    p_add_any = p_add

    def p_sub(self, e, x, y):
        return self._bin(e, x, y, lambda a, b: a - b, csub)

    def p_mul(self, e, x, y):
        return self._bin(e, x, y, lambda a, b: a * b, cmul)

    def p_div(self, e, x, y):
        if x.kind == 'i':
            return self._bin(e, x, y, idiv)

        def dv(a, b):
            self.note_def(b)
            return a * T.pinv(b)

        def cdv(a, b):
            if b[1] is ZERO:
                self.note_def(b[0])
            return cmul(a, cinv(b))
        return self._bin(e, x, y, dv, cdv)

    def note_def(self, b):
        if b.const is None:
            self.defs.append((tuple(self.guard), b))

    def p_rem(self, e, x, y):
        if x.kind == 'i':
            return self._bin(e, x, y, irem)

        def fr(a, b):
            return a - b * s_trunc(a * T.pinv(b))
        return self._bin(e, x, y, fr)

    def p_max(self, e, x, y):
        if x.kind == 'b':
            return self._bin(e, x, y, T.disj)
        return self._bin(e, x, y, T.pmax)

    def p_min(self, e, x, y):
        if x.kind == 'b':
            return self._bin(e, x, y, T.conj)
        return self._bin(e, x, y, T.pmin)

    def p_pow(self, e, x, y):
        return self._bin(e, x, y, s_pow)

    def p_atan2(self, e, x, y):
        return self._bin(e, x, y, lambda a, b: T.app('atan2', [a, b]))

    def p_nextafter(self, e, x, y):
        return x

    def p_integer_pow(self, e, x):
        k = e.params['y']
        if x.kind == 'c':
            def fn(idx):
                a = x[idx]
                r = (ONE, ZERO)
                for _ in range(abs(k)):
                    r = cmul(r, a)
                return r if k >= 0 else cinv(r)
            return Arr(x.shape, 'c', fn)
        def f2(idx):
            v = x[idx]
            if k < 0:
                self.note_def(v)
            return T.ppow(v, k)
        return Arr(x.shape, x.kind, f2)

    def p_exp2(self, e, x):
        return Arr(x.shape, 'f', lambda i: s_pow(P(2), x[i]))

    def p_complex(self, e, x, y):
        return Arr(x.shape, 'c', lambda idx: (x[idx], y[idx]))

    def p_clamp(self, e, lo, x, hi):
        def g(a, idx):
            return a[idx] if a.shape else a[()]
        return Arr(x.shape, x.kind, lambda idx: T.pmin(T.pmax(x[idx], g(lo, idx)), g(hi, idx)))

    # ---- comparisons / logic
    def _cmp(self, x, y, fr):
        def fn(idx):
            a, b = x[idx], y[idx]
            if x.kind == 'b':
                a, b = T.br(a), T.br(b)
            if x.kind == 'c':
                raise Unsupported('complex cmp')
            return fr(a, b)
        return Arr(bshape(x.shape, y.shape), 'b', fn)

    def p_eq(self, e, x, y):
        if x.kind == 'b':
            return Arr(x.shape, 'b', lambda i: T.iff(x[i], y[i]))
        if x.kind == 'c':
            return Arr(x.shape, 'b', lambda i: T.conj(T.eq(x[i][0], y[i][0]), T.eq(x[i][1], y[i][1])))
        return self._cmp(x, y, T.eq)

    def p_ne(self, e, x, y):
        if x.kind == 'b':
            return Arr(x.shape, 'b', lambda i: T.neg(T.iff(x[i], y[i])))
        if x.kind == 'c':
            return Arr(x.shape, 'b', lambda i: T.neg(T.conj(T.eq(x[i][0], y[i][0]), T.eq(x[i][1], y[i][1]))))
        if x is y and x.kind == 'f':
            return Arr(x.shape, 'b', lambda i: FALSE)   # isnan
        return self._cmp(x, y, lambda a, b: T.neg(T.eq(a, b)))

    def p_lt(self, e, x, y):
        return self._cmp(x, y, T.lt)

    def p_le(self, e, x, y):
        return self._cmp(x, y, T.le)

    def p_gt(self, e, x, y):
        return self._cmp(x, y, T.gt)

    def p_ge(self, e, x, y):
        return self._cmp(x, y, T.ge)

    def p_is_finite(self, e, x):
        def fn(i):
            v = x[i]
            vs = v if x.kind == 'c' else (v,)
            for w in vs:
                if any(a.args[0] in ('$INF', '$NAN') for a in w.fv):
                    if len(w.terms) == 1:
                        return FALSE
                    raise Unsupported('is_finite on extended term')
            return TRUE
        return Arr(x.shape, 'b', fn)

    def p_and(self, e, x, y):
        if x.kind != 'b':
            raise Unsupported('bitwise and')
        return self._bin(e, x, y, T.conj)

    def p_or(self, e, x, y):
        if x.kind != 'b':
            raise Unsupported('bitwise or')
        return self._bin(e, x, y, T.disj)

    def p_xor(self, e, x, y):
        if x.kind != 'b':
            raise Unsupported('bitwise xor')
        return self._bin(e, x, y, lambda a, b: T.neg(T.iff(a, b)))

    def p_not(self, e, x):
        if x.kind != 'b':
            raise Unsupported('bitwise not')
        return Arr(x.shape, 'b', lambda i: T.neg(x[i]))

    def p_select_n(self, e, which, *cases):
        k = cases[0].kind

        def fn(idx):
            w = which[idx] if which.shape else which[()]
            if which.kind == 'b':
                if w is TRUE:
                    return cases[1][idx]
                if w is FALSE:
                    return cases[0][idx]
                return elem_ite(w, cases[1][idx], cases[0][idx], k)
            r = cases[-1][idx]
            for j in reversed(range(len(cases) - 1)):
                r = elem_ite(T.eq(w, j), cases[j][idx], r, k)
            return r
        return Arr(cases[0].shape, k, fn, cases[0].dtype)

    def p_convert_element_type(self, e, x):
        return self.convert(x, e.params['new_dtype'])

    def convert(self, x, dt):
        k = kind_of(dt)
        if k == x.kind:
            return x
        a = x.kind
        if a == 'b':
            f = {'f': T.br, 'i': T.br, 'c': lambda v: (T.br(v), ZERO)}[k]
        elif a in 'fi' and k == 'c':
            f = lambda v: (v, ZERO)
        elif a == 'i' and k == 'f':
            f = lambda v: v
        elif a == 'f' and k == 'i':
            f = s_trunc
        elif a in 'fi' and k == 'b':
            f = lambda v: T.neg(T.eq(v, 0))
        elif a == 'c' and k in 'f':
            f = lambda v: v[0]
        elif a == 'c' and k in 'i':
            f = lambda v: s_trunc(v[0])
        else:
            raise Unsupported('convert %s->%s' % (a, k))
        return Arr(x.shape, k, lambda i: f(x[i]), dt)

    # ---- structural
    def oshape(self, eqn, i=0):
        return tuple(dim(d) for d in eqn.outvars[i].aval.shape)

    def p_broadcast_in_dim(self, e, x, *dyn):
        shape = self.oshape(e)
        bd = e.params['broadcast_dimensions']

        def fn(idx):
            return x[tuple(ZERO if x.shape[i] == 1 and shape[d] != 1 else idx[d] for i, d in enumerate(bd))]
        return Arr(shape, x.kind, fn, x.dtype)

    def p_broadcast(self, e, x):
        shape = self.oshape(e)
        k = len(shape) - len(x.shape)
        return Arr(shape, x.kind, lambda idx: x[idx[k:]])

    def p_squeeze(self, e, x):
        dims = set(e.params['dimensions'])
        n = len(x.shape)

        def fn(idx):
            it = iter(idx)
            return x[tuple(ZERO if d in dims else next(it) for d in range(n))]
        return Arr(self.oshape(e), x.kind, fn, x.dtype)

    def p_expand_dims(self, e, x):
        dims = set(e.params['dimensions'])
        shape = self.oshape(e)
        return Arr(shape, x.kind, lambda idx: x[tuple(i for d, i in enumerate(idx) if d not in dims)])

    def p_reshape(self, e, x, *dyn):
        pm = e.params.get('dimensions')
        if pm is not None:
            x0 = x
            inv = {d: k for k, d in enumerate(pm)}
            x = Arr(tuple(x0.shape[d] for d in pm), x0.kind, lambda idx: x0[tuple(idx[inv[d]] for d in range(len(pm)))], x0.dtype)
        return self.reshape(x, self.oshape(e))

    def reshape(self, x, shape):
        old = x.shape
        if old == shape:
            return x
        # factor into groups of equal products
        io = [(d, s) for d, s in enumerate(old) if s != 1]
        no = [(d, s) for d, s in enumerate(shape) if s != 1]
        if [s for _, s in io] == [s for _, s in no] or [P(s) for _, s in io] == [P(s) for _, s in no]:
            def fn(idx):
                r = [ZERO] * len(old)
                for (do, _), (dn, _) in zip(io, no):
                    r[do] = idx[dn]
                return x[tuple(r)]
            return Arr(shape, x.kind, fn, x.dtype)

        # match groups
        groups = []
        i = j = 0
        while i < len(io) or j < len(no):
            a, b = [], []
            pa, pb = ONE, ONE
            while True:
                if a or b:
                    if pa is pb:
                        break
                ca, cb = pa.const, pb.const
                if i < len(io) and (j >= len(no) or not a or (ca is not None and cb is not None and ca < cb) or (len(b) > 0 and (ca is None or cb is None) and len(b) >= len(a))):
                    a.append(io[i]); pa = pa * P(io[i][1]); i += 1
                elif j < len(no):
                    b.append(no[j]); pb = pb * P(no[j][1]); j += 1
                else:
                    raise Unsupported('reshape %s -> %s' % (old, shape))
            groups.append((a, b))

        def fn(idx):
            r = [ZERO] * len(old)
            for a, b in groups:
                if len(a) == 1 and len(b) == 1:
                    r[a[0][0]] = idx[b[0][0]]
                    continue
                lin = ZERO
                for d, s in b:
                    lin = lin * P(s) + idx[d]
                for d, s in reversed(a[1:]):
                    q = T.pfloordiv(lin, P(s))
                    r[d] = lin - q * P(s)
                    lin = q
                r[a[0][0]] = lin
            return x[tuple(r)]
        return Arr(shape, x.kind, fn, x.dtype)

    def p_transpose(self, e, x):
        perm = e.params['permutation']
        inv = [0] * len(perm)
        for i, p in enumerate(perm):
            inv[p] = i
        return Arr(tuple(x.shape[p] for p in perm), x.kind, lambda idx: x[tuple(idx[inv[d]] for d in range(len(perm)))], x.dtype)

    def p_rev(self, e, x):
        ds = set(e.params['dimensions'])
        return Arr(x.shape, x.kind, lambda idx: x[tuple((P(x.shape[d]) - 1 - i) if d in ds else i for d, i in enumerate(idx))], x.dtype)

    def p_slice(self, e, x):
        st = [P(dim(s)) for s in e.params['start_indices']]
        sd = e.params['strides'] or [1] * len(st)
        sd = [P(dim(s)) for s in sd]
        return Arr(self.oshape(e), x.kind, lambda idx: x[tuple(s + i * k for s, i, k in zip(st, idx, sd))], x.dtype)

    def clampidx(self, s, lo, hi):
        c, h = s.const, hi.const
        if c is not None and h is not None:
            return P(max(0, min(c, h)))
        if T.CTX.decide is not None:
            if T.CTX.decide(T.conj(T.ge(s, lo), T.le(s, hi))) is True:
                return s
        return T.pmax(P(lo), T.pmin(s, hi))

    def p_dynamic_slice(self, e, x, *starts):
        sizes = [dim(s) for s in e.params['slice_sizes']]
        st = [self.clampidx(s[()], ZERO, P(d) - P(k)) for s, d, k in zip(starts, x.shape, sizes)]
        return Arr(tuple(sizes), x.kind, lambda idx: x[tuple(s + i for s, i in zip(st, idx))], x.dtype)

    def p_dynamic_update_slice(self, e, x, u, *starts):
        st = [self.clampidx(s[()], ZERO, P(d) - P(k)) for s, d, k in zip(starts, x.shape, u.shape)]

        def fn(idx):
            off = [i - s for i, s in zip(idx, st)]
            c = T.conj(*[T.conj(T.ge(o, 0), T.lt(o, P(k))) for o, k in zip(off, u.shape)])
            if c is not TRUE and c is not FALSE and T.CTX.decide is not None:
                d = T.CTX.decide(c)
                c = TRUE if d is True else FALSE if d is False else c
            if c is FALSE:
                return x[idx]
            if c is TRUE:
                return u[tuple(off)]
            return elem_ite(c, u[tuple(off)], x[idx], x.kind)
        return Arr(x.shape, x.kind, fn, x.dtype)

    def p_concatenate(self, e, *xs):
        d = e.params['dimension']
        k = xs[0].kind

        def fn(idx):
            i = idx[d]
            off = ZERO
            cases = []
            for x in xs:
                end = off + P(x.shape[d])
                cases.append((T.lt(i, end), x, off))
                off = end
            # resolve concretely when possible
            out = []
            for c, x, o in cases:
                if c is not TRUE and c is not FALSE and T.CTX.decide is not None:
                    dd = T.CTX.decide(c)
                    c = TRUE if dd is True else FALSE if dd is False else c
                if c is FALSE:
                    continue
                out.append((c, x, o))
                if c is TRUE:
                    break
            if not out:
                out = [(TRUE,) + cases[-1][1:]]
            r = None
            for c, x, o in reversed(out):
                v = x[idx[:d] + (i - o,) + idx[d + 1:]]
                r = v if r is None else elem_ite(c, v, r, k)
            return r
        return Arr(self.oshape(e), k, fn, xs[0].dtype)

    def p_pad(self, e, x, pv):
        cfg = [(dim(a), dim(b), dim(c)) for a, b, c in e.params['padding_config']]
        v0 = pv[()]

        def fn(idx):
            src = []
            cond = TRUE
            for i, (lo, hi, it), n in zip(idx, cfg, x.shape):
                j = i - P(lo)
                if it == 0:
                    src.append(j)
                    cond = T.conj(cond, T.ge(j, 0), T.lt(j, P(n)))
                else:
                    s = P(it) + 1
                    q = T.pfloordiv(j, s)
                    src.append(q)
                    cond = T.conj(cond, T.eq(q * s, j), T.ge(q, 0), T.lt(q, P(n)))
            if cond is not TRUE and cond is not FALSE and T.CTX.decide is not None:
                cond = T.simp_conj(cond)
            if cond is FALSE:
                return v0
            if cond is TRUE:
                return x[tuple(src)]
            return elem_ite(cond, x[tuple(src)], v0, x.kind)
        return Arr(self.oshape(e), x.kind, fn, x.dtype)

    def p_iota(self, e, *dyn):
        d = e.params['dimension']
        k = kind_of(e.params['dtype'])
        return Arr(self.oshape(e), k, lambda idx: (idx[d], ZERO) if k == 'c' else idx[d], e.params['dtype'])

    def p_dim_as_value(self, e):
        v = P(dim(e.params['dim']))
        return Arr((), 'i', lambda i: v)

    # ---- reductions
    def _range_iter(self, shape):
        n = 1
        for d in shape:
            n *= d
        if n > LIMIT:
            raise Unsupported('reduction too large')
        return itertools.product(*[range(d) for d in shape])

    def sum_over(self, dims, body, kind):
        """Sum over index tuple of symbolic/concrete dims; body(idx)->elem"""
        conc = [i for i, d in enumerate(dims) if isinstance(d, int)]
        symb = [i for i, d in enumerate(dims) if not isinstance(d, int)]
        tot = (ZERO, ZERO) if kind == 'c' else ZERO
        nn = True
        fr = {i: T.fresh('I') for i in symb}
        dec = T.CTX.decide
        with RangeFacts([(fr[i], dims[i]) for i in symb]):
            for ci in self._range_iter([dims[i] for i in conc]):
                idx = [None] * len(dims)
                for i, v in zip(conc, ci):
                    idx[i] = P(v)
                for i in symb:
                    idx[i] = fr[i]
                v = body(tuple(idx))
                nn = nn and T.nonneg_syntactic(v[0] if kind == 'c' else v)
                if kind == 'c':
                    tot = cadd(tot, v)
                else:
                    tot = tot + v

        def close(t):
            for i in reversed(symb):
                t = T.close_sum(fr[i], dims[i], t)
            return t
        if symb:
            tot = (close(tot[0]), close(tot[1])) if kind == 'c' else close(tot)
        if nn:
            T.mark_nonneg(tot[0] if kind == 'c' else tot)
        return tot

    def _reduce_idx(self, x, axes):
        axes = tuple(axes)
        keep = [d for d in range(len(x.shape)) if d not in axes]

        def mk(oidx, ridx):
            idx = [None] * len(x.shape)
            for d, i in zip(keep, oidx):
                idx[d] = i
            for d, i in zip(axes, ridx):
                idx[d] = i
            return tuple(idx)
        return keep, mk

    def p_reduce_sum(self, e, x):
        axes = e.params['axes']
        keep, mk = self._reduce_idx(x, axes)
        dims = [x.shape[a] for a in axes]

        def fn(oidx):
            return self.sum_over(dims, lambda r: x[mk(oidx, r)], x.kind)
        return Arr(tuple(x.shape[d] for d in keep), x.kind, fn, x.dtype)

    def _fold(self, e, x, f, init):
        axes = e.params['axes']
        keep, mk = self._reduce_idx(x, axes)
        dims = [x.shape[a] for a in axes]

        def fn(oidx):
            if not all(isinstance(d, int) for d in dims):
                return self.symbolic_fold(e.primitive.name, dims, lambda r: x[mk(oidx, r)], x.kind)
            r = init
            for ri in self._range_iter(dims):
                v = x[mk(oidx, tuple(P(i) for i in ri))]
                r = v if r is None else f(r, v)
            if r is None:
                raise Unsupported('empty reduction')
            return r
        return Arr(tuple(x.shape[d] for d in keep), x.kind, fn, x.dtype)

    def symbolic_fold(self, name, dims, body, kind):
        if kind == 'b' and name in ('reduce_and', 'reduce_or'):
            if len(dims) != 1:
                raise Unsupported(name)
            v = T.fresh('I')
            with RangeFacts([(v, dims[0])]):
                b = body((v,))
            op = 'forall' if name == 'reduce_and' else 'exists'
            return T.quant(op, v, dims[0], b)
        if name in ('reduce_max', 'reduce_min') and kind != 'c':
            fr = [T.fresh('I') for _ in dims]
            with RangeFacts(list(zip(fr, dims))):
                b = body(tuple(fr))
            return extremum(b if name == 'reduce_max' else -b, fr, dims) * (1 if name == 'reduce_max' else -1)
        raise Unsupported('symbolic ' + name)

    def p_reduce_max(self, e, x):
        if x.kind == 'b':
            return self.p_reduce_or(e, x)
        return self._fold(e, x, T.pmax, None)

    def p_reduce_min(self, e, x):
        if x.kind == 'b':
            return self.p_reduce_and(e, x)
        return self._fold(e, x, T.pmin, None)

    def p_reduce_prod(self, e, x):
        return self._fold(e, x, cmul if x.kind == 'c' else (lambda a, b: a * b), (ONE, ZERO) if x.kind == 'c' else ONE)

    def p_reduce_and(self, e, x):
        return self._fold(e, x, T.conj, TRUE)

    def p_reduce_or(self, e, x):
        return self._fold(e, x, T.disj, FALSE)

    def _arg(self, e, x, better):
        (ax,) = e.params['axes']
        n = x.shape[ax]
        shape = x.shape[:ax] + x.shape[ax + 1:]
        if x.kind == 'b':
            bx = x
            x = Arr(bx.shape, 'i', lambda idx: T.ite(bx[idx], ONE, ZERO))

        def fn(oidx):
            if not isinstance(n, int):
                v = T.fresh('I')
                with RangeFacts([(v, n)]):
                    b = x[oidx[:ax] + (v,) + oidx[ax:]]
                if e.primitive.name == 'argmin':
                    b = -b
                return argextremum(b, v, n)
            best = x[oidx[:ax] + (ZERO,) + oidx[ax:]]
            bi = ZERO
            for i in range(1, n):
                v = x[oidx[:ax] + (P(i),) + oidx[ax:]]
                c = better(v, best)
                best, bi = T.ite(c, v, best), T.ite(c, P(i), bi)
            return bi
        return Arr(shape, 'i', fn)

    def p_argmax(self, e, x):
        return self._arg(e, x, T.gt)

    def p_argmin(self, e, x):
        return self._arg(e, x, T.lt)

    def _cum(self, e, x, f):
        ax, rev = e.params['axis'], e.params['reverse']
        n = x.shape[ax]

        def fn(idx):
            i = idx[ax].const
            if i is None:
                if not isinstance(n, int) or n > 12:
                    raise Unsupported('symbolic cumulative')
                r = out[idx[:ax] + (P(n - 1),) + idx[ax + 1:]]
                for j in range(n - 1):
                    r = T.ite(T.eq(idx[ax], j), out[idx[:ax] + (P(j),) + idx[ax + 1:]], r)
                return r
            rng = range(int(i), n) if rev else range(0, int(i) + 1)
            if rev:
                rng = reversed(rng)
            prev = None
            # incremental via memo of neighbour
            j = int(i) + 1 if rev else int(i) - 1
            if 0 <= j < n:
                prev = out[idx[:ax] + (P(j),) + idx[ax + 1:]]
                return f(prev, x[idx])
            return x[idx]
        out = Arr(x.shape, x.kind, fn, x.dtype)
        return out

    def p_cumsum(self, e, x):
        ax, rev = e.params['axis'], e.params['reverse']
        n = x.shape[ax]
        if isinstance(n, int):
            return self._cum(e, x, cadd if x.kind == 'c' else (lambda a, b: a + b))

        def fn(idx):
            i = idx[ax]

            def body(r):
                v = x[idx[:ax] + (r[0],) + idx[ax + 1:]]
                b = T.br(T.ge(r[0], i) if rev else T.le(r[0], i))
                return (v[0] * b, v[1] * b) if x.kind == 'c' else v * b
            return self.sum_over([n], body, x.kind)
        return Arr(x.shape, x.kind, fn, x.dtype)

    def p_cumprod(self, e, x):
        return self._cum(e, x, cmul if x.kind == 'c' else (lambda a, b: a * b))

    def p_cummax(self, e, x):
        return self._cum(e, x, T.pmax)

    def p_cummin(self, e, x):
        return self._cum(e, x, T.pmin)

    def p_dot_general(self, e, x, y):
        (cx, cy), (bx, by) = e.params['dimension_numbers']
        ok = kind_of(e.outvars[0].aval.dtype)
        fx = [d for d in range(len(x.shape)) if d not in cx and d not in bx]
        fy = [d for d in range(len(y.shape)) if d not in cy and d not in by]
        dims = [x.shape[d] for d in cx]

        def fn(idx):
            b = idx[:len(bx)]
            ix = idx[len(bx):len(bx) + len(fx)]
            iy = idx[len(bx) + len(fx):]

            def body(r):
                a = [None] * len(x.shape)
                c = [None] * len(y.shape)
                for d, i in zip(bx, b):
                    a[d] = i
                for d, i in zip(by, b):
                    c[d] = i
                for d, i in zip(fx, ix):
                    a[d] = i
                for d, i in zip(fy, iy):
                    c[d] = i
                for d, i in zip(cx, r):
                    a[d] = i
                for d, i in zip(cy, r):
                    c[d] = i
                u, v = x[tuple(a)], y[tuple(c)]
                u = T.br(u) if x.kind == 'b' else u
                v = T.br(v) if y.kind == 'b' else v
                if ok == 'c':
                    if x.kind != 'c':
                        u = (u, ZERO)
                    if y.kind != 'c':
                        v = (v, ZERO)
                    return cmul(u, v)
                return u * v
            return self.sum_over(dims, body, ok)
        return Arr(self.oshape(e), ok, fn, e.outvars[0].aval.dtype)

    def p_bcoo_dot_general(self, e, data, ind, rhs):
        nd, k = len(ind.shape), ind.shape[1] if len(ind.shape) == 2 else None
        sh = e.params['lhs_spinfo'].shape
        if nd != 2 or len(data.shape) != 1 or k != len(sh) or data.kind == 'c':
            raise Unsupported('bcoo layout')
        nse = data.shape[0]

        def fn(idx):
            r = ZERO
            for s in range(nse):
                c = T.conj(*[T.eq(ind[(P(s), P(d))], idx[d]) for d in range(k)])
                r = r + data[P(s)] * T.br(c)
            return r
        lhs = Arr(tuple(dim(d) for d in sh), data.kind, fn, data.dtype)
        return self.p_dot_general(e, lhs, rhs)

    def p_conv_general_dilated(self, e, lhs, rhs):
        p = e.params
        dn = p['dimension_numbers']
        ls, rs, os_ = dn.lhs_spec, dn.rhs_spec, dn.out_spec
        strides, pads = p['window_strides'], p['padding']
        ld, rd = p['lhs_dilation'], p['rhs_dilation']
        fg, bg = p['feature_group_count'], p['batch_group_count']
        if bg != 1:
            raise Unsupported('batch groups')
        nsp = len(strides)
        ok = kind_of(e.outvars[0].aval.dtype)
        cin = rhs.shape[rs[1]]
        cout = rhs.shape[rs[0]]

        def fn(oidx):
            b = oidx[os_[0]]
            o = oidx[os_[1]]
            sp = [oidx[d] for d in os_[2:]]
            dims = [cin] + [rhs.shape[rs[2 + i]] for i in range(nsp)]

            def body(r):
                ci = r[0]
                if fg != 1:
                    g = T.pfloordiv(o, P(cout) if False else P(cout // fg)) if isinstance(cout, int) else None
                    if g is None:
                        raise Unsupported('fgc')
                    ch = g * P(cin) + ci
                else:
                    ch = ci
                cond = TRUE
                li = [None] * len(lhs.shape)
                li[ls[0]] = b
                li[ls[1]] = ch
                ri = [None] * len(rhs.shape)
                ri[rs[0]] = o
                ri[rs[1]] = ci
                for i in range(nsp):
                    k = r[1 + i]
                    pos = sp[i] * P(dim(strides[i])) + k * P(dim(rd[i])) - P(dim(pads[i][0]))
                    n = P(lhs.shape[ls[2 + i]])
                    if ld[i] != 1:
                        q = T.pfloordiv(pos, P(dim(ld[i])))
                        cond = T.conj(cond, T.eq(q * P(dim(ld[i])), pos))
                        pos = q
                    cond = T.conj(cond, T.ge(pos, 0), T.lt(pos, n))
                    li[ls[2 + i]] = pos
                    ri[rs[2 + i]] = k
                if cond is FALSE:
                    return (ZERO, ZERO) if ok == 'c' else ZERO
                u, v = lhs[tuple(li)], rhs[tuple(ri)]
                bb = T.br(cond)
                if ok == 'c':
                    w = cmul(u if lhs.kind == 'c' else (u, ZERO), v if rhs.kind == 'c' else (v, ZERO))
                    return (w[0] * bb, w[1] * bb)
                return u * v * bb
            return self.sum_over(dims, body, ok)
        return Arr(self.oshape(e), ok, fn, e.outvars[0].aval.dtype)

    # ---- gather / scatter
    def p_gather(self, e, x, ind):
        p = e.params
        dn = p['dimension_numbers']
        ss = [dim(s) for s in p['slice_sizes']]
        mode = str(p['mode'])
        shape = self.oshape(e)
        off = dn.offset_dims
        batch = [d for d in range(len(shape)) if d not in off]
        noncol = [d for d in range(len(x.shape)) if d not in dn.collapsed_slice_dims]
        fill = p.get('fill_value')

        def fn(idx):
            bi = tuple(idx[d] for d in batch)
            start = [ZERO] * len(x.shape)
            cond = TRUE
            for k, d in enumerate(dn.start_index_map):
                s = ind[bi + (P(k),)]
                hi = P(x.shape[d]) - P(ss[d])
                if 'CLIP' in mode or mode.endswith('0'):
                    s = self.clampidx(s, ZERO, hi)
                elif 'FILL' in mode or mode.endswith('1'):
                    c = T.conj(T.ge(s, 0), T.le(s, hi))
                    if c is not TRUE and T.CTX.decide is not None:
                        c = T.simp_conj(c)
                    cond = T.conj(cond, c)
                start[d] = s
            for j, d in enumerate(off):
                start[noncol[j]] = start[noncol[j]] + idx[d]
            if cond is FALSE:
                return self._fill(x.kind, fill)
            v = x[tuple(start)]
            if cond is TRUE:
                return v
            return elem_ite(cond, v, self._fill(x.kind, fill), x.kind)
        return Arr(shape, x.kind, fn, x.dtype)

    def _fill(self, k, fill):
        if k == 'b':
            return T.B(True if fill is None else fill)
        if k == 'c':
            return (T.var('$NAN', 'R'), ZERO)
        if k == 'f':
            return T.var('$NAN', 'R') if fill is None else P(fill)
        return P(-2 ** 31 if fill is None else int(fill))

    def _scatter(self, e, x, ind, upd, comb):
        p = e.params
        dn = p['dimension_numbers']
        uw = dn.update_window_dims
        iw = dn.inserted_window_dims
        sd = dn.scatter_dims_to_operand_dims
        sdims = [d for d in range(len(upd.shape)) if d not in uw]
        winop = [d for d in range(len(x.shape)) if d not in iw]
        bshape = [upd.shape[d] for d in sdims]
        mode = str(p['mode'])

        def contrib(idx, s):
            start = [ZERO] * len(x.shape)
            for k, d in enumerate(sd):
                v = ind[tuple(s) + (P(k),)]
                if 'CLIP' in mode or mode.endswith('0'):
                    w = upd.shape[uw[winop.index(d)]] if d in winop else 1
                    v = self.clampidx(v, ZERO, P(x.shape[d]) - P(w))
                start[d] = v
            cond = TRUE
            ui = [None] * len(upd.shape)
            for d, i in zip(sdims, s):
                ui[d] = i
            for d in iw:
                cond = T.conj(cond, T.eq(start[d], idx[d]))
            for j, d in enumerate(winop):
                w = idx[d] - start[d]
                W = upd.shape[uw[j]]
                cond = T.conj(cond, T.ge(w, 0), T.lt(w, P(W)))
                if not ('CLIP' in mode or mode.endswith('0')) and start[d] is not ZERO:
                    cond = T.conj(cond, T.ge(start[d], 0), T.le(start[d], P(x.shape[d]) - P(W)))
                ui[uw[j]] = w
            if cond is not TRUE and cond is not FALSE and T.CTX.decide is not None:
                cond = T.simp_conj(cond)
            return cond, tuple(ui)

        if all(isinstance(b, int) for b in bshape):
            def fn(idx):
                r = x[idx]
                for s in itertools.product(*[range(b) for b in bshape]):
                    c, ui = contrib(idx, [P(i) for i in s])
                    if c is FALSE:
                        continue
                    r = elem_ite(c, comb(r, upd[ui]), r, x.kind)
                return r
            return Arr(x.shape, x.kind, fn, x.dtype)
        if len(bshape) != 1:
            raise Unsupported('multi-dim symbolic scatter')
        add = e.primitive.name == 'scatter-add'
        if not add and e.primitive.name != 'scatter':
            raise Unsupported('symbolic ' + e.primitive.name)
        if not add:
            self.scatter_distinct(ind, bshape[0], sd)

        def fn(idx):
            v = T.fresh('I')
            with RangeFacts([(v, bshape[0])]):
                c, ui = contrib(idx, [v])
                u = upd[ui] if c is not FALSE else zero_of(x.kind)
            bb = T.br(c)
            base = x[idx]
            cl = lambda t: T.close_sum(v, bshape[0], t)
            if x.kind == 'b':
                raise Unsupported('bool symbolic scatter')
            if x.kind == 'c':
                cov = ONE if add else ONE - cl(bb)
                return (base[0] * cov + cl(u[0] * bb), base[1] * cov + cl(u[1] * bb))
            if add:
                return base + cl(u * bb)
            if base is ZERO:
                return cl(u * bb)
            return base * (ONE - cl(bb)) + cl(u * bb)
        return Arr(x.shape, x.kind, fn, x.dtype)

    def scatter_distinct(self, ind, n, sd):
        i, j = T.fresh('I'), T.fresh('I')
        with RangeFacts([(i, n), (j, n)]):
            if T.CTX.decide is None:
                raise Unsupported('scatter distinctness')
            same = T.conj(*[T.eq(ind[(i, P(k))], ind[(j, P(k))]) for k in range(len(sd))])
            if T.CTX.decide(T.implies(same, T.eq(i, j))) is not True:
                raise Unsupported('scatter indices not provably distinct')

    def p_scatter(self, e, x, ind, upd):
        return self._scatter(e, x, ind, upd, lambda a, b: b)

    def p_scatter_add(self, e, x, ind, upd):
        return self._scatter(e, x, ind, upd, cadd if x.kind == 'c' else (lambda a, b: a + b))

    def p_scatter_mul(self, e, x, ind, upd):
        return self._scatter(e, x, ind, upd, cmul if x.kind == 'c' else (lambda a, b: a * b))

    def p_scatter_max(self, e, x, ind, upd):
        return self._scatter(e, x, ind, upd, T.pmax)

    def p_scatter_min(self, e, x, ind, upd):
        return self._scatter(e, x, ind, upd, T.pmin)

    # ---- sorting
    def p_sort(self, e, *xs):
        ax, nk = e.params['dimension'], e.params['num_keys']
        n = xs[0].shape[ax]
        if not isinstance(n, int) or (getattr(T.CTX, 'opaque_sort', False) and n > 1 and len(xs[0].shape) == 1):
            return self.symbolic_sort(e, xs, ax, nk, n)
        if n > 12 and not all(True for _ in ()):
            raise Unsupported('sort too large')
        cache = {}

        def rows(rest):
            if rest in cache:
                return cache[rest]
            items = []
            for i in range(n):
                idx = rest[:ax] + (P(i),) + rest[ax:]
                items.append(tuple(x[idx] for x in xs))

            def less(a, b):
                c = FALSE
                eqs = TRUE
                for k in range(nk):
                    if xs[k].kind == 'c':
                        raise Unsupported('complex sort')
                    u, v = a[k], b[k]
                    if xs[k].kind == 'b':
                        u, v = T.br(u), T.br(v)
                    c = T.disj(c, T.conj(eqs, T.lt(u, v)))
                    eqs = T.conj(eqs, T.eq(u, v))
                return c
            if n > 7 and any(less(items[i + 1], items[i]) not in (TRUE, FALSE) for i in range(n - 1)):
                raise Unsupported('symbolic sort of size %d' % n)
            for i in range(1, n):          # insertion network (stable)
                for j in range(i, 0, -1):
                    a, b = items[j - 1], items[j]
                    c = less(b, a)
                    if c is FALSE:
                        continue
                    if c is TRUE:
                        items[j - 1], items[j] = b, a
                    else:
                        items[j - 1] = tuple(elem_ite(c, v, u, x.kind) for u, v, x in zip(a, b, xs))
                        items[j] = tuple(elem_ite(c, u, v, x.kind) for u, v, x in zip(a, b, xs))
            cache[rest] = items
            return items
        return [Arr(x.shape, x.kind, (lambda k: lambda idx: rows(idx[:ax] + idx[ax + 1:])[self._ci(idx[ax])][k])(k), x.dtype)
                for k, x in enumerate(xs)]

    def symbolic_sort(self, e, xs, ax, nk, n):
        """sort along an axis of symbolic length: the result is x[pi(i)] for a permutation pi determined by the keys"""
        if nk != 1 or xs[0].kind == 'c':
            raise Unsupported('symbolic sort')
        if len(xs[0].shape) > 1:
            memo = {}

            def perm(rest):
                if rest not in memo:
                    v = T.fresh('I')
                    with RangeFacts([(v, n)]):
                        b = xs[0][rest[:ax] + (v,) + rest[ax:]]
                        b = T.br(b) if xs[0].kind == 'b' else b
                    nm, fvs = content_name('SORTPERM', [_close_key(b, [v], [n])], (P(n).id,))
                    perm_facts(nm, n, not fvs)
                    if fvs:
                        T.INJECTIVE_FIRST.add(nm)
                    memo[rest] = lambda i: T.app(nm, [i] + fvs, 'I')
                return memo[rest]

            def mk(x):
                return Arr(x.shape, x.kind, lambda idx: x[idx[:ax] + (perm(idx[:ax] + idx[ax + 1:])(idx[ax]),) + idx[ax + 1:]], x.dtype)
            return [mk(x) for x in xs]
        if isinstance(n, int):
            el = [xs[0][(P(i),)] for i in range(n)]
            el = [T.br(b) if xs[0].kind == 'b' else b for b in el]
            nm, fvs = content_name('SORTPERM', el, (n,))
            perm_facts(nm, n, not fvs)
            pi = lambda i: T.app(nm, [i] + fvs, 'I')
        else:
            v = T.fresh('I')
            with RangeFacts([(v, n)]):
                b = xs[0][(v,)]
                if xs[0].kind == 'b':
                    b = T.br(b)
            nm, fvs = content_name('SORTPERM', [_close_key(b, [v], [n])], (P(n).id,))
            perm_facts(nm, n, not fvs)
            pi = lambda i: T.app(nm, [i] + fvs, 'I')

        def mk(x):
            return Arr(x.shape, x.kind, lambda idx: x[(pi(idx[0]),)], x.dtype)
        return [mk(x) for x in xs]

    def p_triangular_solve(self, e, a, b):
        """forward / back substitution, entry by entry"""
        p = e.params
        if not a.concrete or len(a.shape) != 2 or len(b.shape) != 2 or a.kind == 'c' or b.kind == 'c':
            raise Unsupported('triangular_solve')
        left, lower, tr, unit = p['left_side'], p['lower'], p['transpose_a'], p['unit_diagonal']
        n = a.shape[0]
        m = b.shape[1] if left else b.shape[0]
        if not isinstance(m, int) or n > 5:
            raise Unsupported('triangular_solve')

        def A(i, j):            # the system matrix acting on the left of the unknown
            t = tr if left else not tr
            return a[(P(j), P(i))] if t else a[(P(i), P(j))]
        low = lower if not (tr if left else not tr) else not lower
        sol = {}
        for c in range(m):
            for i in (range(n) if low else range(n - 1, -1, -1)):
                r = b[(P(i), P(c))] if left else b[(P(c), P(i))]
                for j in (range(i) if low else range(i + 1, n)):
                    r = r - A(i, j) * sol[j, c]
                sol[i, c] = r if unit else r * T.pinv(A(i, i))

        def fn(idx):
            i, c = (idx if left else (idx[1], idx[0]))
            return sol[self._ci(i), self._ci(c)]
        return Arr(b.shape, 'f', fn, b.dtype)

    def _ci(self, i):
        c = i.const
        if c is None:
            raise Unsupported('symbolic index into sorted array')
        return int(c)

    def p_top_k(self, e, x):
        k = e.params['k']
        ax = len(x.shape) - 1
        n = x.shape[ax]
        if not isinstance(n, int) or not isinstance(k, int):
            return self.symbolic_topk(e, x, k)
        cache = {}

        def rows(rest):
            if rest not in cache:
                items = [(x[rest + (P(i),)], P(i)) for i in range(n)]
                if n > 7 and any(T.gt(items[i + 1][0], items[i][0]) not in (TRUE, FALSE) for i in range(n - 1)):
                    raise Unsupported('symbolic top_k of size %d' % n)
                for i in range(1, n):
                    for j in range(i, 0, -1):
                        a, b = items[j - 1], items[j]
                        c = T.gt(b[0], a[0])
                        if c is FALSE:
                            continue
                        items[j - 1] = tuple(T.ite(c, v, u) for u, v in zip(a, b))
                        items[j] = tuple(T.ite(c, u, v) for u, v in zip(a, b))
                cache[rest] = items
            return cache[rest]
        shape = x.shape[:-1] + (k,)
        return [Arr(shape, x.kind, lambda idx: rows(idx[:-1])[self._ci(idx[-1])][0]),
                Arr(shape, 'i', lambda idx: rows(idx[:-1])[self._ci(idx[-1])][1])]

    def symbolic_topk(self, e, x, k):
        raise Unsupported('symbolic top_k')

    # ---- fft
    def p_fft(self, e, x):
        lens = [dim(d) for d in e.params['fft_lengths']]
        ft = str(e.params['fft_type']).split('.')[-1]
        nd = len(lens)
        if nd != 1:
            if ft not in ('FFT', 'IFFT'):
                raise Unsupported('nd rfft')
        n = lens[0]
        shape = self.oshape(e)
        self.axioms_used.add('fft primitive = DFT sum with kernel exp(-+2 pi i jk/n)')

        def ker(k, j, n, sgn):
            t = k * j
            if isinstance(n, int):
                tc = t.const
                if tc is None:
                    return (T.app('dft_c', [t, P(n)]), T.app('dft_s', [t, P(n)]) * sgn)
                f = Fraction(int(tc), n)
                return (cosq(f), sinq(f) * sgn)
            return (T.app('dft_c', [t, P(n)]), T.app('dft_s', [t, P(n)]) * sgn)

        if ft in ('FFT', 'IFFT'):
            sgn = -1 if ft == 'FFT' else 1

            def fn(idx):
                head, ks = idx[:-nd], idx[-nd:]

                def body(r):
                    v = x[head + r]
                    for k, j, m in zip(ks, r, lens):
                        v = cmul(v, ker(k, j, m, sgn))
                    return v
                s = self.sum_over(list(lens), body, 'c')
                if ft == 'IFFT':
                    for m in lens:
                        s = (s[0] * T.pinv(P(m)), s[1] * T.pinv(P(m)))
                return s
            return Arr(shape, 'c', fn)
        if ft == 'RFFT':
            def fn(idx):
                def body(r):
                    v = x[idx[:-1] + r]
                    c = ker(idx[-1], r[0], n, -1)
                    return (v * c[0], v * c[1])
                return self.sum_over([n], body, 'c')
            return Arr(shape, 'c', fn)
        if ft == 'IRFFT':
            if not isinstance(n, int):
                raise Unsupported('symbolic irfft')
            h = n // 2 + 1

            def fn(idx):
                tot = ZERO
                for k in range(h):
                    v = x[idx[:-1] + (P(k),)]
                    c = ker(P(k), idx[-1], n, 1)
                    w = 1 if (k == 0 or (n % 2 == 0 and k == n // 2)) else 2
                    tot = tot + (v[0] * c[0] - v[1] * c[1]) * w
                return tot * T.pinv(P(n))
            return Arr(shape, 'f', fn)
        raise Unsupported(ft)

    # ---- control
    def p_pjit(self, e, *ins):
        name = e.params.get('name', '')
        if name in self.contracts:
            r = self.contracts[name](self, e, ins)
            if r is not None:
                return r
        return self.eval_closed(e.params['jaxpr'], ins)

    def p_closed_call(self, e, *ins):
        return self.eval_closed(e.params['call_jaxpr'], ins)

    def p_core_call(self, e, *ins):
        return self.eval_closed(e.params['call_jaxpr'], ins)

    def p_remat(self, e, *ins):
        return self.eval(e.params['jaxpr'], [], ins)

    p_checkpoint = p_remat

    def p_custom_jvp_call(self, e, *ins):
        return self.eval_closed(e.params['call_jaxpr'], ins)

    def p_custom_vjp_call(self, e, *ins):
        return self.eval_closed(e.params.get('call_jaxpr') or e.params['fun_jaxpr'], ins)

    def p_custom_vjp_call_jaxpr(self, e, *ins):
        return self.eval_closed(e.params['fun_jaxpr'], ins)

    def p_custom_lin(self, e, *ins):
        raise Unsupported('custom_lin')

    def p_cond(self, e, idx, *ops):
        brs = e.params['branches']
        i = idx[()]
        if idx.kind == 'b':
            i = T.br(i)
        c = i.const
        if c is not None:
            c = max(0, min(int(c), len(brs) - 1))
            return self.eval_closed(brs[c], ops)
        outs = []
        conds = []
        for j in range(len(brs)):
            if j == 0:
                g = T.le(i, 0)
            elif j == len(brs) - 1:
                g = T.ge(i, j)
            else:
                g = T.eq(i, j)
            conds.append(simplify_br(g))
        if T.CTX.decide is not None:
            for j, g in enumerate(conds):
                if T.CTX.decide(g) is True:
                    return self.eval_closed(brs[j], ops)
        for j, b in enumerate(brs):
            self.guard.append(conds[j])
            outs.append(self.eval_closed(b, ops))
            self.guard.pop()

        def mk(k):
            a0 = outs[0][k]

            def fn(ix):
                r = outs[-1][k][ix]
                for j in reversed(range(len(brs) - 1)):
                    r = elem_ite(conds[j], outs[j][k][ix], r, a0.kind)
                return r
            return Arr(a0.shape, a0.kind, fn, a0.dtype)
        return [mk(k) for k in range(len(outs[0]))]

    def p_scan(self, e, *ins):
        p = e.params
        nc, nk, L = p['num_consts'], p['num_carry'], dim(p['length'])
        cj = p['jaxpr']
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        if not isinstance(L, int) or L > 64:
            if self.loop_handler is not None:
                return self.loop_handler.scan(self, e, ins)
            raise Unsupported('scan length')
        ys = []
        order = range(L - 1, -1, -1) if p['reverse'] else range(L)
        for i in order:
            xi = [Arr(x.shape[1:], x.kind, (lambda x, i: lambda idx: x[(P(i),) + idx])(x, i), x.dtype) for x in xs]
            outs = self.eval_closed(cj, list(consts) + carry + xi)
            carry = [force(a) for a in outs[:nk]]
            ys.append(outs[nk:])
        if p['reverse']:
            ys = ys[::-1]
        res = list(carry)
        nys = len(cj.jaxpr.outvars) - nk
        for k in range(nys):
            a0 = ys[0][k] if ys else None
            if a0 is None:
                res.append(Arr(self.oshape(e, nk + k), kind_of(e.outvars[nk + k].aval.dtype), lambda idx: ZERO))
                continue

            def fn(idx, k=k):
                c = idx[0].const
                if c is None:
                    r = ys[-1][k][idx[1:]]
                    for j in reversed(range(L - 1)):
                        r = elem_ite(T.eq(idx[0], j), ys[j][k][idx[1:]], r, ys[j][k].kind)
                    return r
                return ys[int(c)][k][idx[1:]]
            res.append(Arr((L,) + a0.shape, a0.kind, fn, a0.dtype))
        return res

    def p_while(self, e, *ins):
        p = e.params
        cn, bn = p['cond_nconsts'], p['body_nconsts']
        cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        # statically bounded loops (counter conditions on constants) are unrolled exactly
        for it in range(65):
            c = self.eval_closed(p['cond_jaxpr'], list(cc) + carry)[0][()]
            if c is FALSE:
                return carry
            if c is not TRUE:
                break
            carry = [force(a) for a in self.eval_closed(p['body_jaxpr'], list(bc) + carry)]
        else:
            carry = list(ins[cn + bn:])
        if it > 0:
            carry = list(ins[cn + bn:])
        if self.loop_handler is None:
            raise Unsupported('while loop')
        return self.loop_handler.loop(self, e, cc, bc, carry)

    def p_custom_linear_solve(self, e, *ins):
        raise Unsupported('custom_linear_solve')

    # ---- contract primitives (loops.py)
    def p_vf_havoc(self, e, *dyn):
        from .contract import sym_array
        from . import smt
        nm = e.params['name']
        k = kind_of(e.params['dtype'])
        shape = self.oshape(e)
        f = e.params['facts'].f
        if f is not None:
            smt.APP_FACTS[nm] = f
        if e.params['facts'].injective and e.params['facts'].batched:
            T.INJECTIVE_LAST.add(nm)
            if all(isinstance(s, int) for s in shape):
                for bx in itertools.product(*[range(s) for s in shape[:-1]]):
                    el = [T.app(nm, [P(i) for i in bx + (j,)], 'I') for j in range(shape[-1])]
                    for i in range(len(el)):
                        for q in range(i):
                            self.facts.append(T.mk_bool('not', (T.mk_bool('eq', (el[i] - el[q],)),)))
        elif e.params['facts'].injective:
            T.INJECTIVE.add(nm)
            if all(isinstance(s, int) for s in shape):
                el = [T.app(nm, [P(i) for i in ix], 'I') for ix in itertools.product(*[range(s) for s in shape])]
                for i in range(len(el)):
                    for q in range(i):
                        self.facts.append(T.mk_bool('not', (T.mk_bool('eq', (el[i] - el[q],)),)))
        return sym_array(nm, shape, k)

    def linear_map(self, e, x):
        """L(sum_k c_k u_k) = sum_k c_k L(u_k), c_k free of the index"""
        n, = x.shape
        if isinstance(n, int) or x.kind == 'c':
            raise Unsupported('linear map at a listed size')
        i = T.fresh('I')
        iv = T.the_var(i)
        with RangeFacts([(i, n)]):
            v = T.expand(x[(i,)]) if hasattr(T, 'expand') else x[(i,)]
        groups = {}
        for m, c in v.terms.items():
            dep = tuple((a, q) for a, q in m if iv in a.fv)
            fre = tuple((a, q) for a, q in m if iv not in a.fv)
            groups[dep] = groups.get(dep, ZERO) + T.mk_poly({fre: c})
        out = []
        for dep, c in groups.items():
            nm, fvs = content_name('$' + e.params['name'], [_close_key(T.mk_poly({dep: 1}), [i], [n])], (P(n).id,))
            out.append((c, nm, fvs))

        def el(idx):
            r = ZERO
            for c, nm, fvs in out:
                r = r + c * T.app(nm, list(idx) + fvs)
            return r
        return Arr(self.oshape(e), 'f', el)

    def p_vf_opaque(self, e, *xs):
        if e.params['linear']:
            return self.linear_map(e, xs[0])
        parts, dims = [], []
        for x in xs:
            cx = x.kind == 'c'
            if x.concrete:
                for _, v in x.elems():
                    parts += list(v) if cx else [v]
                dims.append(x.shape)
                continue
            fr = [T.fresh('I') for _ in x.shape]
            with RangeFacts(list(zip(fr, x.shape))):
                v = x[tuple(fr)]
            for q in (v if cx else (v,)):
                parts.append(_close_key(q, fr, x.shape))
            dims.append(tuple(P(d).id for d in x.shape))
        parts = [p if isinstance(p, T.Poly) else T.br(p) for p in parts]
        nm, fvs = content_name('$' + e.params['name'], parts, tuple(dims))
        if kind_of(e.params['dtype']) == 'c':
            return Arr(self.oshape(e), 'c', lambda idx: (T.app(nm + '.re', list(idx) + fvs), T.app(nm + '.im', list(idx) + fvs)))
        return Arr(self.oshape(e), kind_of(e.params['dtype']), lambda idx: T.app(nm, list(idx) + fvs))

    def p_vf_lstsq(self, e, A, b):
        """x determined by (A, b) with A^H (A x - b) = 0"""
        m, n = A.shape
        if len(b.shape) != 1 or not isinstance(n, int):
            raise Unsupported('lstsq')
        cx = A.kind == 'c'
        i = T.fresh('I')
        parts = []
        for ii in ([P(q) for q in range(m)] if isinstance(m, int) else [i]):
            with RangeFacts([] if isinstance(m, int) else [(i, m)]):
                for k in range(n):
                    v = A[(ii, P(k))]
                    parts += list(v) if cx else [v]
                v = b[(ii,)]
                parts += list(v) if cx else [v]
        nm, fvs = content_name('LSTSQ', [_close_key(p, [i], [m]) for p in parts], (P(m).id, n, cx))

        def xk(k):
            if cx:
                return (T.app(nm + '.re', [P(k)] + fvs), T.app(nm + '.im', [P(k)] + fvs))
            return T.app(nm, [P(k)] + fvs)
        x = Arr((n,), A.kind, lambda idx: xk(self._ci(idx[0])) if idx[0].const is not None else (
            (T.app(nm + '.re', [idx[0]] + fvs), T.app(nm + '.im', [idx[0]] + fvs)) if cx else T.app(nm, [idx[0]] + fvs)))
        if not fvs:
            self.axioms_used.add('assumed contract of jnp.linalg.lstsq: returns a solution of the normal equations')
            for k in range(n):
                def body(r, k=k):
                    i, = r
                    acc = b[(i,)]
                    acc = (-acc[0], -acc[1]) if cx else -acc
                    for q in range(n):
                        t = A[(i, P(q))]
                        acc = cadd(acc, cmul(t, xk(q))) if cx else acc + t * xk(q)
                    a = A[(i, P(k))]
                    return cmul((a[0], -a[1]), acc) if cx else a * acc
                s = self.sum_over([m], body, A.kind)
                for u in (s if cx else (s,)):
                    self.facts.append(T.mk_bool('eq', (u,)) if u is not ZERO else TRUE)
        return x

    def p_debug_callback(self, e, *ins):
        return []

    def p_vf_assume(self, e, x):
        self.assumes.append(x)
        if e.params.get('case') and T.CTX.decide is not None and x.shape == ():
            T.CTX.decide.add(x[()])
        return Arr((), 'b', lambda i: TRUE)

    def p_vf_enter(self, e, x):
        self.guard.append(x[()])
        return Arr((), 'b', lambda i: TRUE)

    def p_vf_leave(self, e):
        self.guard.pop()
        return Arr((), 'b', lambda i: TRUE)

    def p_vf_assert(self, e, *xs):
        g = T.conj(*self.guard)
        k = e.params['kind']
        if k == 'true':
            a = xs[0]
            self.asserts.append(('true', e.params['name'], Arr(a.shape, 'b', lambda i: T.implies(g, a[i]))))
        else:
            self.asserts.append((k, e.params['name'], xs[0], xs[1], g))
        return Arr((), 'b', lambda i: TRUE)

    def p_device_put(self, e, *ins):
        return list(ins)


def simplify_br(g):
    """conditions of the form  k*br(c)+d <= 0  ->  c / not c"""
    if g.op in ('le', 'eq'):
        p = g.args[0]
        brs = [a for m in p.terms for a, e in m if a.kind == 'br']
        if len(p.fv) >= 0 and len(set(brs)) == 1 and all(len(m) == 0 or (len(m) == 1 and m[0][0] is brs[0]) for m in p.terms):
            a = brs[0]
            one = T.subst_one(p, a, ONE)
            zero = T.subst_one(p, a, ZERO)
            t = (T.le0 if g.op == 'le' else T.eq0)
            return T.disj(T.conj(a.args[0], t(one)), T.conj(T.neg(a.args[0]), t(zero)))
    return g


def force(a):
    """materialise concrete arrays to keep closures shallow"""
    if a.concrete:
        n = 1
        for d in a.shape:
            n *= d
        if n <= LIMIT:
            for idx, _ in a.elems():
                pass
    return a


class RangeFacts:
    """temporarily extend the decider with range facts for fresh index variables"""
    stack = []

    def __init__(self, pairs):
        self.pairs = pairs

    def __enter__(self):
        if T.CTX.decide is not None and self.pairs:
            for v, n in self.pairs:
                T.CTX.decide.add_range(v, P(n))

    def __exit__(self, *a):
        pass


_ext = {}


def _close_key(b, fr, dims):
    names = [T.mk_atom('var', ('$m%d' % i,), 'I') for i in range(len(fr))]
    env = {T.the_var(f): T.of_atom(nm) for f, nm in zip(fr, names)}
    return T.subst(b, env)


EXT_INFO = {}


def extremum(b, fr, dims):
    """max over symbolic ranges, as an uninterpreted function of the free variables"""
    k = _close_key(b, fr, dims)
    fvs = sorted([v for v in k.fv if not v.args[0].startswith('$m')], key=lambda v: v.id)
    pat = T.subst(k, {v: T.of_atom(T.mk_atom('var', ('$q%d' % i,), v.sort)) for i, v in enumerate(fvs)})
    key = ('max', pat.id, tuple(P(d).id for d in dims))
    if key not in _ext:
        _ext[key] = 'MAXOVER%d' % len(_ext)
        EXT_INFO[_ext[key]] = (pat, len(fvs), [P(d) for d in dims])
        if T.nonneg_syntactic(pat):
            T.NONNEG_APPS.add(_ext[key])
    return T.app(_ext[key], [T.of_atom(v) for v in fvs], 'R')


def argextremum(b, v, n):
    k = _close_key(b, [v], [n])
    fvs = sorted([x for x in k.fv if not x.args[0].startswith('$m')], key=lambda x: x.id)
    pat = T.subst(k, {x: T.of_atom(T.mk_atom('var', ('$q%d' % i,), x.sort)) for i, x in enumerate(fvs)})
    key = ('argmax', pat.id, P(n).id)
    if key not in _ext:
        nm = _ext[key] = 'ARGMAX%d' % len(_ext)
        EXT_INFO[nm] = (pat, len(fvs), [P(n)])
        from . import smt

        def facts(a):
            i = T.of_atom(a)
            return [T.implies(T.ge(P(n), 1), T.conj(T.ge(i, 0), T.lt(i, P(n))))]
        smt.APP_FACTS[nm] = facts
    return T.app(_ext[key], [T.of_atom(x) for x in fvs], 'I')


def content_name(tag, pats, extra):
    """a name determined by the content of closed terms; returns (name, free variables to pass as arguments)"""
    rigid = set(getattr(T.CTX, 'rigid', ()))
    fvs = set()
    for k in pats:
        fvs |= {x for x in k.fv if not x.args[0].startswith('$m') and x.args[0] not in rigid}
    fvs = sorted(fvs, key=lambda x: x.id)
    env = {x: T.of_atom(T.mk_atom('var', ('$q%d' % i,), x.sort)) for i, x in enumerate(fvs)}
    key = (tag, tuple(T.subst(k, env).id for k in pats), extra)
    if key not in _ext:
        _ext[key] = '%s%d' % (tag, len(_ext))
    return _ext[key], [T.of_atom(x) for x in fvs]


def perm_facts(nm, n, inj):
    """a permutation of 0..n-1"""
    from . import smt
    if nm in smt.APP_FACTS:
        return

    def facts(a):
        i = T.of_atom(a)
        j = a.args[1]
        return [T.implies(T.conj(T.ge(j, 0), T.lt(j, P(n))), T.conj(T.ge(i, 0), T.lt(i, P(n))))]
    smt.APP_FACTS[nm] = facts
    if inj:
        T.INJECTIVE.add(nm)
