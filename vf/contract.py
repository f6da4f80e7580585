"""Contracts: one executable text, two uses.

A contract is a Python function `fn(c, d, *args)` that calls the real code from /repo on `args`
(sizes in `d`) and states its postconditions with c.eq / c.true / c.le / c.static, and its
preconditions with c.assume.  The same text is
  * traced by JAX (calls into /repo included) and turned into proof obligations over symbolic
    arrays -- for all values and, where tracing with symbolic sizes works, for all sizes;
  * executed on concrete arrays, to replay a counterexample or as a labelled bounded stand-in.
"""
import itertools
import os
import time
import traceback
import zlib
import numpy as np
import jax
import jax.numpy as jnp
from . import terms as T, smt, shapes, jaxsym, prove
from .terms import P, ZERO, ONE
from .jaxsym import Arr, Interp, Unsupported, dim

jax.config.update('jax_enable_x64', True)
DT = {'f': jnp.float64, 'c': jnp.complex128, 'i': jnp.int64, 'b': jnp.bool_}
NPDT = {'f': np.float64, 'c': np.complex128, 'i': np.int64, 'b': np.bool_}
TOL = 1e-6
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'


def rdim(d, env):
    if isinstance(d, str):
        return env[d]
    if callable(d):
        return d(env)
    return d


class Param:
    """array argument of a contract.
    kind f/c/i/b; lo/hi for ints (half open); distinct ints; pos / nonneg for reals;
    gen(rng, shape, style, env) overrides numeric sampling;
    facts(poly_elem) -> [Bool] extra facts on every element"""

    def __init__(self, name, shape=(), kind='f', lo=None, hi=None, distinct=False, pos=False, nonneg=False,
                 gen=None, facts=None, nonzero=False, within=None, enum=False, ortho=None):
        self.ortho = ortho        # axis along which the slices of the array are orthonormal
        self.name, self.shape, self.kind = name, shape, kind
        self.lo, self.hi, self.distinct, self.pos, self.nonneg, self.gen, self.facts = lo, hi, distinct, pos, nonneg, gen, facts
        self.nonzero, self.within, self.enum = nonzero, within, enum

    def admissible(self, env):
        """all values of an enumerated integer array"""
        shape = tuple(int(rdim(s, env)) for s in self.shape)
        lo, hi = int(rdim(self.lo, env)), int(rdim(self.hi, env))
        k = int(np.prod(shape)) if shape else 1
        it = itertools.permutations(range(lo, hi), k) if self.distinct else itertools.product(range(lo, hi), repeat=k)
        return [np.array(v, dtype=np.int64).reshape(shape) for v in it]

    def struct(self, jd):
        return jax.ShapeDtypeStruct(tuple(rdim(s, jd) for s in self.shape), DT[self.kind])

    def sample(self, rng, env, style):
        shape = tuple(int(rdim(s, env)) for s in self.shape)
        if self.gen is not None:
            return np.asarray(self.gen(rng, shape, style, env))
        if self.kind == 'i':
            lo = int(rdim(self.lo if self.lo is not None else 0, env))
            hi = int(rdim(self.hi if self.hi is not None else 5, env))
            if self.distinct:
                k = int(np.prod(shape)) if shape else 1
                v = rng.permutation(np.arange(lo, hi))[:k]
                if style == 'int':
                    v = np.sort(v)
                return v.reshape(shape)
            return rng.integers(lo, max(hi, lo + 1), shape)
        if self.kind == 'b':
            return rng.integers(0, 2, shape).astype(bool)

        def real():
            if style == 'normal':
                v = rng.standard_normal(shape)
            elif style == 'int':
                v = rng.integers(-3, 4, shape).astype(float)
            elif style == 'zero':
                v = np.zeros(shape)
            elif style == 'ones':
                v = np.ones(shape)
            elif style == 'big':
                v = rng.standard_normal(shape) * 37.5
            elif style == 'small':
                v = rng.standard_normal(shape) * 0.05
            elif style == 'sparse':
                v = rng.standard_normal(shape) * (rng.random(shape) < 0.4)
            elif style == 'neg':
                v = -np.abs(rng.standard_normal(shape)) - 0.1
            else:
                v = rng.standard_normal(shape)
            if self.within is not None:
                a, b = self.within
                v = a + (b - a) * (1 / (1 + np.exp(-v)))
            if self.pos:
                v = np.abs(v) + (0.25 if style != 'int' else 1)
            elif self.nonneg:
                v = np.abs(v)
            elif self.nonzero:
                v = np.where(np.abs(v) < 0.1, 0.5, v)
            return v
        if self.kind == 'c':
            return real() + 1j * real()
        return real()


STYLES = ('normal', 'int', 'sparse', 'big', 'zero', 'ones', 'small', 'neg')


class Post:
    """collector passed to contract functions"""

    def __init__(self, mode):
        self.mode = mode          # 'trace' | 'run'
        self.items = []           # (kind, label, arrays)
        self.assumes = []

    def eq(self, label, a, b):
        self.items.append(('eq', label, a, b))

    def le(self, label, a, b):
        self.items.append(('le', label, a, b))

    def true(self, label, a):
        self.items.append(('true', label, a))

    def static(self, label, ok, detail=''):
        self.items.append(('static', label, bool(ok), str(detail)))

    def shape(self, label, a, shape):
        sh = tuple(jnp.shape(a))
        ok = len(sh) == len(tuple(shape)) and all(x == y for x, y in zip(sh, shape))
        self.static(label + ' shape', ok, '%s expected %s' % (sh, tuple(shape)))

    def assume(self, a):
        self.assumes.append(a)


class Contract:
    def __init__(self, name, fn, args=(), dims=(), hyps=None, sym=True, grid=None, num=None, targets=(), tol=TOL,
                 minsize=1, samples=4, thorough_samples=16, deduce=True, note='', timeout=6000, x64=True, loops=None,
                 styles=None, libs=None, maxgrid=None, max_elems=60, opaque_sort=False, light=False):
        self.light = light            # quick tier: no listed-size deduction once all sizes are discharged
        self.opaque_sort = opaque_sort
        self.name, self.fn, self.args, self.dims = name, fn, list(args), tuple(dims)
        self.hyps = hyps or (lambda p: [])
        self.sym = sym and bool(dims)
        if grid is None:
            vals = {0: [()], 1: [(1,), (2,), (3,), (4,), (5,)], 2: [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)],
                    3: [(1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 2)]}.get(len(self.dims), [(2,) * len(self.dims)])
            grid = [dict(zip(self.dims, v)) for v in vals]
        self.grid = [g if isinstance(g, dict) else dict(zip(self.dims, g if isinstance(g, tuple) else (g,))) for g in grid]
        if num is None:
            num = self.grid[-2:] + ([{k: v * 3 + i for i, (k, v) in enumerate(self.grid[-1].items())}] if sym and dims else [])
        self.num = [g if isinstance(g, dict) else dict(zip(self.dims, g if isinstance(g, tuple) else (g,))) for g in num]
        self.targets, self.tol, self.minsize = targets, tol, minsize
        self.samples, self.thorough_samples, self.deduce, self.note = samples, thorough_samples, deduce, note
        self.timeout, self.loops, self.libs = timeout, loops, libs
        self.styles = styles or STYLES
        self.max_elems = max_elems
        self.fixed = {}

    # ------------------------------------------------------------ numeric
    def execute(self, env, arrs):
        """run on concrete arrays; returns list of failures (label, detail) or None if precondition false"""
        c = Post('run')
        jarr = [jnp.asarray(a) for a in arrs]
        try:
            self.fn(c, env, *jarr)
        except SkipSample:
            return None
        except Exception as e:      # the code under contract raised on an admissible input
            for a in c.assumes:
                if not bool(np.all(np.asarray(a))):
                    return None
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (f.filename.replace('/repo/', ''), f.lineno) for f in reversed(tb[-4:]))
            files = [f.filename for f in tb]
            if isinstance(e, ContractError):
                raise
            if not any(f.startswith('/repo/') for f in files) and files[-1].startswith(VERIF) and isinstance(
                    e, (AttributeError, ImportError, NameError, TypeError, KeyError)):
                # the contract text itself no longer fits the code's interface: nothing is decided
                raise ContractError('contract does not fit the interface: %s: %s at %s' % (type(e).__name__, str(e)[:200], where))
            return [('no exception', '%s: %s at %s' % (type(e).__name__, str(e)[:200], where))]
        for a in c.assumes:
            if not bool(np.all(np.asarray(a))):
                return None
        bad = []
        for it in c.items:
            if it[0] == 'static':
                if not it[2]:
                    bad.append((it[1], it[3]))
            elif it[0] == 'true':
                v = np.asarray(it[2])
                if not v.all():
                    bad.append((it[1], 'false at %s' % (np.argwhere(~np.atleast_1d(v))[0].tolist(),)))
            else:
                a, b = np.asarray(it[2]), np.asarray(it[3])
                if a.shape != b.shape:
                    try:
                        a, b = np.broadcast_arrays(a, b)
                    except ValueError:
                        bad.append((it[1], 'shapes %s vs %s' % (a.shape, b.shape)))
                        continue
                if a.size == 0:
                    continue
                if a.dtype == bool or b.dtype == bool:
                    a, b = a.astype(float), b.astype(float)
                na, nb = np.isnan(a), np.isnan(b)
                if it[0] == 'eq':
                    inf = np.isinf(a) & np.isinf(b) & (a == b)
                    with np.errstate(all='ignore'):
                        err = np.where(inf, 0.0, np.abs(a - b))
                else:
                    with np.errstate(all='ignore'):
                        err = np.maximum(np.where(a <= b, 0.0, (a - b)), 0)
                fin = np.abs(np.where(np.isfinite(a), a, 0)), np.abs(np.where(np.isfinite(b), b, 0))
                scale = 1 + max(fin[0].max(), fin[1].max())
                tolv = self.tol * scale
                f = (err > tolv) | np.isnan(err)
                f &= ~(na & nb)
                if f.any():
                    k = tuple(np.argwhere(np.atleast_1d(f))[0])
                    A, B_ = np.atleast_1d(a)[k], np.atleast_1d(b)[k]
                    bad.append((it[1], 'at %s: got %s, contract %s %s' % ([int(x) for x in k], A, '==' if it[0] == 'eq' else '<=', B_)))
        return bad

    def sampled(self, env, nsamples, seed):
        rng = np.random.default_rng(zlib.crc32(repr((self.name, sorted(env.items()), seed)).encode()))
        styles = list(self.styles)
        for k in range(nsamples):
            if k < len(styles):
                st = [styles[k]] * len(self.args)
            else:
                st = [styles[int(rng.integers(len(styles)))] for _ in self.args]
            yield [p.sample(rng, env, s) for p, s in zip(self.args, st)]

    # ------------------------------------------------------------ tracing
    def trace(self, jd):
        box = {}

        def f(*args):
            c = Post('trace')
            self.fn(c, jd, *args)
            box['c'] = c
            out = []
            for it in c.items:
                if it[0] in ('eq', 'le'):
                    out += [jnp.asarray(it[2]), jnp.asarray(it[3])]
                elif it[0] == 'true':
                    out.append(jnp.asarray(it[2]))
            out += [jnp.asarray(a) for a in c.assumes]
            return out
        from . import loops
        with loops.patched(self.loops, self.libs):
            cj = jax.make_jaxpr(f)(*[p.struct(jd) for p in self.args])
        return cj, box['c']

    def sym_params(self, polys):
        out = []
        self.param_hyps = []
        for p in self.args:
            nm = p.name
            if nm in self.fixed:
                p.symname = nm
                out.append(jaxsym.from_np(self.fixed[nm]))
                continue
            T.INJECTIVE.discard(nm)
            T.ORTHO.pop(nm, None)
            T.NONNEG_APPS.discard(nm)
            smt.APP_FACTS.pop(nm, None)
            if p.distinct:
                nm = nm + '!d'
                T.INJECTIVE.add(nm)
            if p.pos or p.nonneg:
                nm = nm + ('!p' if p.pos else '!n')
                T.NONNEG_APPS.add(nm)
            elif p.nonzero:
                nm = nm + '!z'
            lo = None if p.lo is None else P(rdim(p.lo, polys))
            hi = None if p.hi is None else P(rdim(p.hi, polys))

            def facts(a, p=p, lo=lo, hi=hi):
                v = T.of_atom(a)
                r = []
                if p.kind == 'i' and lo is not None:
                    r.append(T.ge(v, lo))
                if p.kind == 'i' and hi is not None:
                    r.append(T.lt(v, hi))
                if p.pos:
                    r.append(T.neg(T.le0(v)))
                if p.nonzero:
                    r.append(T.neg(T.eq(v, 0)))
                if p.within is not None:
                    r.append(T.gt(v, P(p.within[0])))
                    r.append(T.lt(v, P(p.within[1])))
                if p.facts:
                    r += p.facts(v)
                return r
            smt.APP_FACTS[nm] = facts
            p.symname = nm
            shp = [dim(rdim(s, polys)) for s in p.shape]
            if p.ortho is not None:
                T.ORTHO[nm] = (p.ortho, P(shp[p.ortho]))
            if p.distinct and all(isinstance(s, int) for s in shp):
                el = [T.app(nm, [P(i) for i in ix], 'I') for ix in itertools.product(*[range(s) for s in shp])]
                for i in range(len(el)):
                    for j in range(i):
                        self.param_hyps.append(T.mk_bool('not', (T.mk_bool('eq', (el[i] - el[j],)),)))
            out.append(sym_array(nm, shp, p.kind))
        return out

    def obligations(self, cj, c, polys, hyps, scope, timeout):
        obs = []
        dec = smt.Decider(hyps)
        T.CTX.decide = dec
        T.CTX.opaque_sort = self.opaque_sort
        T.CTX.rigid = {v.args[0] for q in polys.values() for v in P(q).fv}
        it = Interp(call_contracts=CALL_CONTRACTS)
        conc = all(isinstance(dim(v), int) for v in polys.values())
        try:
            params = self.sym_params(polys)
            outs = it.eval_closed(cj, params)
            outs = iter(outs)
            todo = []
            for item in c.items:
                if item[0] in ('eq', 'le'):
                    todo.append((item[0], item[1], next(outs), next(outs)))
                elif item[0] == 'true':
                    todo.append(('true', item[1], next(outs)))
                else:
                    todo.append(item)
            H = list(hyps) + self.param_hyps
            for a in c.assumes:
                H += self.assume_terms(next(outs))
            for a in it.assumes:
                H += self.assume_terms(a)
            for h in H[len(hyps):]:  # noqa
                dec.add(h)
            H += it.facts
            todo += [x for x in it.asserts]
            it.pathsel = None
            k = 0
            for item in todo:
                nm = '%s: %s' % (self.name, item[1])
                if item[0] == 'static':
                    obs.append(prove.Ob(nm, 'proved' if item[2] else 'refuted', 'static', 0.0, detail=item[3], scope=scope))
                    if not item[2]:
                        return obs, it
                    continue
                a = item[2]
                G = [item[4]] if len(item) > 4 and item[4] is not T.TRUE else []
                shp = a.shape
                if item[0] in ('eq', 'le'):
                    b = item[3]
                    if len(b.shape) > len(shp):
                        shp = b.shape
                for ix in self.indices(shp):
                    rng = []
                    for v, dd in zip(ix, shp):
                        if v.const is None:
                            rng.append(T.conj(T.ge(v, 0), T.lt(v, P(dd))))
                            dec.add_range(v, P(dd))
                    if item[0] == 'true':
                        ob = prove.prove(nm, a[ix], H + G + rng, timeout, scope)
                        obs.append(ob)
                    else:
                        ea, eb = comps(bget(a, ix), a.kind), comps(bget(b, ix), b.kind)
                        if len(ea) < len(eb):
                            ea = ea + [ZERO]
                        if len(eb) < len(ea):
                            eb = eb + [ZERO]
                        for u, v in zip(ea, eb):
                            if isinstance(u, T.Bool):
                                ob = prove.prove(nm, T.iff(u, v), H + G + rng, timeout, scope)
                            elif item[0] == 'eq':
                                ob = prove.prove_eq(nm, u, v, H + G + rng, timeout, scope)
                            else:
                                ob = prove.prove(nm, T.le(u, v), H + G + rng, timeout, scope)
                            obs.append(ob)
                            if obs[-1].status != 'proved':
                                break
                    if obs[-1].status != 'proved':
                        obs[-1].detail += ' index %s' % (ix,)
                        return obs, it
        finally:
            T.CTX.decide = None
            T.CTX.opaque_sort = False
        return obs, it

    def assume_terms(self, a):
        if a.concrete:
            return [e for _, e in a.elems() if e is not T.TRUE]
        vs = [T.fresh('I') for _ in a.shape]
        e = a[tuple(vs)]
        if e is T.TRUE:
            return []
        return [T.mk_bool('forall', (tuple(T.the_var(v) for v in vs), tuple(P(s) for s in a.shape), e))]

    def indices(self, shp):
        if all(isinstance(s, int) for s in shp):
            n = 1
            for s in shp:
                n *= s
            if n > 400:
                raise Unsupported('too many output elements')
            return [tuple(P(i) for i in ix) for ix in itertools.product(*[range(s) for s in shp])]
        out = []
        opts = []
        for k, s in enumerate(shp):
            opts.append([P(i) for i in range(s)] if isinstance(s, int) and s <= 6 else [T.fresh('I')])
        return list(itertools.product(*opts))

    def run_symbolic(self, timeout=None):
        def run(env):
            return self.trace(env.jax)
        paths = shapes.paths(list(self.dims), lambda p: [T.ge(v, self.minsize) for v in p.values()] + self.hyps(p), run)
        res = []
        for env, hyps, r in paths:
            if isinstance(r, Exception):
                res.append((env, hyps, [], None, r))
                continue
            cj, c = r
            try:
                obs, it = self.obligations(cj, c, env.poly, hyps, 'all sizes', timeout or self.timeout)
                err = None
            except Unsupported as e:
                obs, it, err = [], None, e
            res.append((env, hyps, obs, it, err))
        return res

    def run_grid_point(self, g, timeout=None):
        cj, c = self.trace(g)
        en = [p for p in self.args if p.enum]
        if not en:
            return self.obligations(cj, c, dict(g), [], 'sizes %s' % (g,), timeout or self.timeout)
        # exhaustive case split over the admissible values of the enumerated integer parameters
        spaces = [p.admissible(g) for p in en]
        total = 1
        for sp in spaces:
            total *= len(sp)
        if total > 300:
            raise Unsupported('case split of %d cases' % total)
        obs = []
        for combo in itertools.product(*spaces):
            self.fixed = {p.name: v for p, v in zip(en, combo)}
            try:
                o, it = self.obligations(cj, c, dict(g), [], 'sizes %s' % (g,), timeout or self.timeout)
            finally:
                self.fixed = {}
            obs += o
            if any(x.status != 'proved' for x in o):
                self.last_fixed = {p.name: v for p, v in zip(en, combo)}
                break
        return obs, it


class SkipSample(Exception):
    pass


class ContractError(Exception):
    pass


def comps(e, kind):
    return list(e) if kind == 'c' else [e]


def bget(a, ix):
    """broadcasting element access"""
    k = len(ix) - len(a.shape)
    return a[tuple(ZERO if a.shape[d] == 1 and isinstance(a.shape[d], int) else ix[k + d] for d in range(len(a.shape)))]


def sym_array(name, shape, kind):
    shape = tuple(dim(d) for d in shape)
    if kind == 'c':
        return Arr(shape, 'c', lambda idx: (T.app(name + '.re', idx), T.app(name + '.im', idx)))
    if kind == 'b':
        return Arr(shape, 'b', lambda idx: T.bapp(name, idx))
    return Arr(shape, kind, lambda idx: T.app(name, idx, 'I' if kind == 'i' else 'R'))


CALL_CONTRACTS = {}
