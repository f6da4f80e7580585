"""Hoare rule for loops: during contract tracing, lax.while_loop / fori_loop / scan calls made by the
code under contract are replaced by  assert Inv(init); havoc; assume Inv & cond; assert Inv(body);
havoc; assume Inv & !cond.  Library calls listed in `libs` are replaced by their assumed contract."""
import contextlib
import jax
import jax.numpy as jnp
import numpy as np
from jax import core, lax
from jax.interpreters import mlir, batching
from jax._src import config as jcfg
from . import terms as T

havoc_p = core.Primitive('vf_havoc')
havoc_p.multiple_results = False
assume_p = core.Primitive('vf_assume')
assert_p = core.Primitive('vf_assert')
assert_p.multiple_results = False


@havoc_p.def_abstract_eval
def _(*dyn, shape, dtype, name, facts):
    return core.ShapedArray(shape, dtype)


@assume_p.def_abstract_eval
def _(x, case=False):
    return core.ShapedArray((), np.dtype('bool'))


@assert_p.def_abstract_eval
def _(*xs, kind, name):
    return core.ShapedArray((), np.dtype('bool'))


def _havoc_batch(args, dims, *, shape, dtype, name, facts):
    """one independent draw for each element of the batch"""
    B = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    return havoc_p.bind(shape=(B,) + tuple(shape), dtype=dtype, name=name, facts=Tag(facts.f, facts.injective, facts.batched + 1)), 0


batching.primitive_batchers[havoc_p] = _havoc_batch
_n = [0]
_ctx = [0]


def havoc(like, name='h', facts=None):
    """fresh unconstrained array with the shape/dtype of `like`"""
    like = jnp.asarray(like) if not hasattr(like, 'aval') else like
    _n[0] += 1
    tag = Tag(facts)
    return havoc_p.bind(shape=tuple(jnp.shape(like)), dtype=np.dtype(like.dtype), name='%s~%d' % (name, _n[0]), facts=tag)


class Tag:
    """hashable holder for fact callbacks"""

    def __init__(self, f, injective=False, batched=0):
        self.f = f
        self.batched = batched
        self.injective = injective

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def havoc_shape(shape, dtype, name='h', facts=None):
    _n[0] += 1
    return havoc_p.bind(shape=tuple(shape), dtype=np.dtype(dtype), name='%s~%d' % (name, _n[0]), facts=Tag(facts))


def havoc_index(shape, hi, name='I', distinct=True):
    """fresh integer array with entries in [0, hi), pairwise distinct if asked"""
    from .jaxsym import dim
    h = T.P(dim(hi))

    def facts(a):
        v = T.of_atom(a)
        return [T.ge(v, 0), T.lt(v, h)]
    _n[0] += 1
    return havoc_p.bind(shape=tuple(shape), dtype=np.dtype('int64'), name='%s~%d' % (name, _n[0]), facts=Tag(facts, distinct))


def havoc_int(lo=None, name='k'):
    def facts(a):
        return [] if lo is None else [T.ge(T.of_atom(a), T.P(lo))]
    _n[0] += 1
    return havoc_p.bind(shape=(), dtype=np.dtype('int64'), name='%s~%d' % (name, _n[0]), facts=Tag(facts))


# ---- random draws: the values a generator returns are arbitrary within its documented range
class Random:
    """stands for jax.random in the code under contract: each draw is an arbitrary value of its range, a new one per
    element of a batch of keys; `draws` lists them in order"""

    def __init__(self, nonzero=True):
        self.draws, self.nonzero = [], nonzero

    def draw(self, kind, key, shape, dtype, facts=None, distinct=False):
        _n[0] += 1
        v = havoc_p.bind(jnp.asarray(key), shape=tuple(shape), dtype=np.dtype(dtype), name='%s~%d' % (kind, _n[0]), facts=Tag(facts, distinct))
        self.draws.append((kind, v))
        return v

    def PRNGKey(self, seed):
        return jnp.zeros((2,), dtype=int)
    key = PRNGKey

    def split(self, key, num=2):
        return jnp.zeros((num, 2), dtype=int)

    def fold_in(self, key, data):
        return key

    def normal(self, key, shape=(), dtype=float):
        return self.draw('normal', key, shape, dtype, (lambda a: [T.neg(T.eq(T.of_atom(a), 0))]) if self.nonzero else None)

    def uniform(self, key, shape=(), dtype=float, minval=0., maxval=1.):
        u = self.draw('uniform', key, shape, dtype, lambda a: [T.ge(T.of_atom(a), 0), T.lt(T.of_atom(a), 1)])
        return u if (isinstance(minval, float), isinstance(maxval, float), minval, maxval) == (True, True, 0., 1.) else minval + (maxval - minval) * u

    def bernoulli(self, key, p=0.5, shape=()):
        return self.draw('bernoulli', key, shape, bool)

    def rademacher(self, key, shape=(), dtype=int):
        return (2 * self.bernoulli(key, shape=shape) - 1).astype(dtype)

    def index(self, key, shape, n, distinct):
        from .jaxsym import dim
        h = T.P(dim(n))
        return self.draw('index', key, shape, 'int64', lambda a: [T.ge(T.of_atom(a), 0), T.lt(T.of_atom(a), h)], distinct)

    def randint(self, key, shape, minval, maxval, dtype=int):
        return minval + self.index(key, shape, maxval - minval, False)

    def permutation(self, key, x, axis=0, independent=False):
        if axis != 0 or independent:
            raise NotImplementedError
        n = x if jnp.ndim(x) == 0 else x.shape[0]
        I = self.index(key, (n,), n, True)
        return I if jnp.ndim(x) == 0 else jnp.asarray(x)[I]

    def choice(self, key, a, shape=(), replace=True, p=None, axis=0):
        if p is not None or axis != 0:
            raise NotImplementedError
        n = a if jnp.ndim(a) == 0 else a.shape[0]
        I = self.index(key, shape, n, not replace)
        return I if jnp.ndim(a) == 0 else jnp.asarray(a)[I]


# ---- an arbitrary function of whole arrays: only 'equal arguments give equal results' is known about it
opaque_p = core.Primitive('vf_opaque')


@opaque_p.def_abstract_eval
def _(*xs, shape, dtype, name, linear):
    return core.ShapedArray(shape, dtype)


def linear_map(name, like, x):
    """the value of an arbitrary linear map at the vector x: linearity is all that is known about it"""
    like = jnp.asarray(like) if not hasattr(like, 'aval') else like
    return opaque_p.bind(jnp.asarray(x), shape=tuple(jnp.shape(like)), dtype=np.dtype(like.dtype), name=name, linear=True)


def opaque(name, like, *xs):
    """the value, with the shape and dtype of `like`, of an uninterpreted function of the arrays xs"""
    like = jnp.asarray(like) if not hasattr(like, 'aval') else like
    return opaque_p.bind(*[jnp.asarray(x) for x in xs], shape=tuple(jnp.shape(like)), dtype=np.dtype(like.dtype), name=name, linear=False)


# ---- library functions replaced by their contracts
lstsq_p = core.Primitive('vf_lstsq')


@lstsq_p.def_abstract_eval
def _(A, b):
    return core.ShapedArray((A.shape[1],) + tuple(b.shape[1:]), np.result_type(A.dtype, b.dtype))


def lstsq(A, b, *a, **k):
    """assumed contract of jnp.linalg.lstsq: a solution x of the normal equations A^H (A x - b) = 0 (a function of A and b)"""
    A, b = jnp.asarray(A), jnp.asarray(b)
    dt = jnp.result_type(A, b)
    if jnp.issubdtype(dt, jnp.complexfloating):
        A, b = A.astype(dt), b.astype(dt)
    return lstsq_p.bind(A, b), None, None, None


_squeeze = jnp.squeeze


def squeeze(a, axis=None):
    """jnp.squeeze, also of an array of symbolic size"""
    if axis is None:
        axis = tuple(i for i, n in enumerate(jnp.shape(a)) if n == 1)
    return _squeeze(a, axis)


SQUEEZE = (jnp, 'squeeze', squeeze)
LSTSQ = (jnp.linalg, 'lstsq', lstsq)


def assume(b, case=False):
    """case: a case distinction, also used to select branches while the code is evaluated symbolically"""
    assume_p.bind(jnp.asarray(b), case=case)


def assert_eq(name, a, b):
    assert_p.bind(jnp.asarray(a), jnp.asarray(b), kind='eq', name=name)


def assert_le(name, a, b):
    assert_p.bind(jnp.asarray(a), jnp.asarray(b), kind='le', name=name)


def assert_true(name, a):
    assert_p.bind(jnp.asarray(a), kind='true', name=name)


class LoopInv:
    """gen(h, init) -> generic state satisfying the invariant (fields defined from havocked ones);
    check(a, state, init) -> asserts the invariant (a has eq/le/true); assume(state, init) -> extra bools;
    go(state) -> the documented condition under which the iterations go on: asserted of every state the body is run on"""

    def __init__(self, gen, check, assume=None, match=None, step=None, go=None):
        self.gen, self.check, self.assume, self.match, self.step, self.go = gen, check, assume, match, step, go


class Asserter:
    def __init__(self, pre):
        self.pre = pre

    def eq(self, n, a, b):
        assert_eq(self.pre + n, a, b)

    def le(self, n, a, b):
        assert_le(self.pre + n, a, b)

    def true(self, n, a):
        assert_true(self.pre + n, a)


_orig_while = lax.while_loop


def make_while(invs):
    state = {'k': 0}

    def while_loop(cond_fun, body_fun, init_val):
        inv = None
        for cand in invs:
            if cand.match is None or cand.match(init_val):
                inv = cand
                break
        if inv is None:
            return _orig_while(cond_fun, body_fun, init_val)
        state['k'] += 1
        pre = 'loop%d ' % state['k']
        inv.check(Asserter(pre + 'invariant holds on entry: '), init_val, init_val)

        def generic():
            s = inv.gen(havoc, init_val)
            if inv.assume:
                for b in inv.assume(s, init_val):
                    assume(b)
            return s
        s = generic()
        assume_scoped = cond_fun(s)
        with scope(assume_scoped):
            if inv.go:
                assert_true(pre + 'goes on only while the documented stopping rule does not hold', inv.go(s))
            s2 = body_fun(s)
            inv.check(Asserter(pre + 'invariant preserved by body: '), s2, init_val)
            if inv.step:
                inv.step(Asserter(pre + 'iteration: '), s, s2, init_val)
        s3 = generic()
        assume(jnp.logical_not(cond_fun(s3)))
        return s3
    return while_loop


enter_p = core.Primitive('vf_enter')
leave_p = core.Primitive('vf_leave')


@enter_p.def_abstract_eval
def _(x):
    return core.ShapedArray((), np.dtype('bool'))


@leave_p.def_abstract_eval
def _():
    return core.ShapedArray((), np.dtype('bool'))


@contextlib.contextmanager
def scope(b):
    enter_p.bind(jnp.asarray(b))
    try:
        yield
    finally:
        leave_p.bind()


@contextlib.contextmanager
def patched(invs, libs):
    """libs: list of (module, attribute, replacement)"""
    saved = []

    def put(mod, attr, val):
        saved.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, val)
    try:
        if invs or libs:
            # traces made under the loop rule / library contracts must not meet ordinary ones in JAX's caches
            # (jax.clear_caches() corrupts the heap of this jaxlib): give them their own cache key
            _ctx[0] += 1
            jcfg.update_thread_local_jit_state(mesh_context_manager=('vf', _ctx[0]))
        if invs:
            w = make_while(invs)
            put(lax, 'while_loop', w)
        for mod, attr, val in (libs or []):
            put(mod, attr, val)
        yield
    finally:
        for mod, attr, val in reversed(saved):
            setattr(mod, attr, val)
        if invs or libs:
            jcfg.update_thread_local_jit_state(mesh_context_manager=())


def lib(module, attr, replacement):
    """assumed contract for a library function as imported by `module`; nothing when the module no longer has it"""
    import importlib
    try:
        m = importlib.import_module(module)
        getattr(m, attr)
    except (ImportError, AttributeError):
        return []
    return [(m, attr, replacement)]


class NoTermination(AssertionError):
    pass


class counted:
    """executions only: run every lax.while_loop step by step and fail after `limit` iterations, instead of hanging"""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        import jax
        from jax import lax
        self.old = lax.while_loop
        self.nojit = jax.disable_jit()
        self.nojit.__enter__()

        def while_loop(cond, body, init):
            s, k = init, 0
            while bool(cond(s)):
                if k >= self.limit:
                    raise NoTermination('the loop has not ended after %d iterations' % k)
                s, k = body(s), k + 1
            return s
        lax.while_loop = while_loop
        return self

    def __exit__(self, *a):
        from jax import lax
        lax.while_loop = self.old
        self.nojit.__exit__(*a)
