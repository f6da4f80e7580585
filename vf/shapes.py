"""Shape-polymorphic tracing of real functions with a solver-backed path oracle.

JAX 0.4.18 refuses some operations on symbolic dimensions (inconclusive comparisons, NumPy
slicing).  Those refusals are replaced by (a) a z3 oracle over the dimension variables which
decides a comparison when it is implied by the assumptions and otherwise forks the trace, and
(b) the same index arithmetic JAX performs for static sizes, on symbolic sizes."""
import inspect
import sys
import itertools
import operator
import numpy as np
import jax
from jax import core
from jax._src import core as _core
import jax._src.numpy.lax_numpy as ln
from jax.experimental.export import shape_poly as sp
from . import terms as T
from .jaxsym import dim, Unsupported
from .smt import Decider

D = sp._DimExpr


class Oracle:
    def __init__(self, hyps, choices):
        self.hyps = list(hyps)
        self.dec = Decider(hyps, 2000)
        self.choices = list(choices)
        self.taken = []
        self.path = []

    def ask(self, cond):
        r = self.dec(cond)
        if r is not None:
            return r
        if cond in self.path:
            return True
        if T.neg(cond) in self.path:
            return False
        k = len(self.taken)
        v = self.choices[k] if k < len(self.choices) else True
        self.taken.append(v)
        if len(self.taken) > 14:
            raise Unsupported('too many shape forks')
        c = cond if v else T.neg(cond)
        self.path.append(c)
        self.dec.add(c)
        return v


ORACLE = [None]


def _poly(x):
    if isinstance(x, D):
        return T.P(dim(x))
    return T.P(int(operator.index(x)))


def _conv(x):
    try:
        return _poly(x)
    except TypeError:
        return None


_orig_eq, _orig_ge = D.eq, D.ge


def _eq(self, other):
    if not sp._convertible_to_poly(other) and not isinstance(other, (int, np.integer)):
        return False
    if ORACLE[0] is None:
        return _orig_eq(self, other)
    p = _conv(other)
    if p is None:
        return False
    return ORACLE[0].ask(T.eq(_poly(self), p))


def _ge(self, other):
    if ORACLE[0] is None:
        return _orig_ge(self, other)
    return ORACLE[0].ask(T.ge(_poly(self), _poly(other)))


def _le(self, other):
    if ORACLE[0] is None:
        return sp._ensure_poly(other, "le").__ge__(self)
    return ORACLE[0].ask(T.le(_poly(self), _poly(other)))


def _gt(self, other):
    return not _le(self, other)


def _lt(self, other):
    return not _ge(self, other)


def _static_idx(idx, size):
    if all(isinstance(x, (int, np.integer, type(None))) for x in (idx.start, idx.stop, idx.step, size)):
        start, stop, step = idx.indices(int(size))
    else:
        step = 1 if idx.step is None else operator.index(idx.step)
        lo, hi = (0, size) if step > 0 else (-1, size - 1)

        def norm(x, dflt):
            if x is None:
                return dflt
            if x < 0:
                x = x + size
                return lo if x < lo else x
            return hi if x > hi else x
        start = norm(idx.start, lo if step > 0 else hi)
        stop = norm(idx.stop, hi if step > 0 else lo)
    if (step < 0 and stop >= start) or (step > 0 and start >= stop):
        return 0, 0, 1, False
    if step > 0:
        return start, stop, step, False
    k = (start - stop - 1) % (-step)
    return stop + k + 1, start + 1, -step, True


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    D.eq = _eq
    D.__eq__ = _eq
    D.__ne__ = lambda s, o: not _eq(s, o)
    D.ge = _ge
    D.__ge__ = _ge
    D.__le__ = _le
    D.__gt__ = _gt
    D.__lt__ = _lt
    ln._static_idx = _static_idx
    _osl = ln._is_slice_element_none_or_constant
    ln._is_slice_element_none_or_constant = lambda e: isinstance(e, D) or _osl(e)
    src = inspect.getsource(ln._index_to_gather)
    src = src.replace("if not core.is_constant_dim(x_shape[x_axis]):", "if False:")
    src = src.replace("i = lax.convert_element_type(start, index_dtype)",
                      "i = lax.convert_element_type(core.dimension_as_value(start), index_dtype) if core.is_symbolic_dim(start) else lax.convert_element_type(start, index_dtype)")
    ns = ln.__dict__
    exec(compile(src, '<index_to_gather>', 'exec'), ns)
    _patch_fft()


def _patch_fft():
    import jax._src.numpy.fft as jf
    import jax._src.lax.fft as lf
    # lax.fft coerces lengths with int(); allow symbolic lengths
    src = inspect.getsource(lf)
    return


_counter = itertools.count()


def _symlen(x):
    """len() that may return a symbolic dimension (the builtin must return an int)"""
    sh = getattr(x, 'shape', None)
    return sh[0] if sh else len(x)


class DimEnv:
    """maps user dimension names to fresh jax dims / Poly vars for one trace path"""

    def __init__(self, names):
        k = next(_counter)
        self.jax = {n: D.from_var('%s_%d' % (n, k)) for n in names}
        self.poly = {n: T.P(dim(d)) for n, d in self.jax.items()}


def paths(names, hyps_fn, run, max_paths=24):
    """run(dimenv) -> result, executed once per feasible shape path.
    hyps_fn(dimenv.poly) -> list of Bool.  Yields (dimenv, pathconds+hyps, result)"""
    install()
    work = [[]]
    out = []
    while work:
        ch = work.pop()
        env = DimEnv(names)
        orc = Oracle(hyps_fn(env.poly), ch)
        ORACLE[0] = orc
        mods = [m for k, m in list(sys.modules.items()) if k.startswith('cr.') and m is not None and 'len' not in vars(m)]
        for m in mods:
            m.len = _symlen
        try:
            res = run(env)
        except Exception as e:      # this path cannot be traced; the others may
            if not orc.path and not ch:
                raise
            res = e
        finally:
            ORACLE[0] = None
            for m in mods:
                del m.len
        for k in range(len(ch), len(orc.taken)):
            alt = orc.taken[:k] + [not orc.taken[k]]
            work.append(alt)
        out.append((env, orc.hyps + orc.path, res))
        if len(out) > max_paths:
            raise Unsupported('too many shape paths')
    return out
