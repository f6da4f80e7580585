"""Decision procedure for one contract (see DESIGN.md)."""
import time
import traceback
import numpy as np
import jax
from . import terms as T, smt, prove, shapes
from .terms import P
from .jaxsym import Unsupported
import z3


def dims_for(env, hyps, k=3, cap=400):
    """a few small size assignments satisfying the path condition"""
    out = []
    o = z3.Optimize()
    o.set('timeout', 4000)
    tr = smt.Tr()
    names = list(env.poly)
    zv = {n: tr.poly(env.poly[n]) for n in names}
    for h in hyps:
        o.add(tr.bool(h))
    for s in tr.side:
        o.add(s)
    for n in names:
        o.add(zv[n] <= cap)
    o.minimize(z3.Sum(*[zv[n] for n in names]) if names else z3.IntVal(0))
    for _ in range(k):
        if o.check() != z3.sat:
            break
        m = o.model()
        g = {n: m.eval(zv[n], model_completion=True).as_long() for n in names}
        out.append(g)
        o.add(z3.Or(*[zv[n] != g[n] for n in names]))
    return out


def model_arrays(spec, g, model, tr, fixed={}):
    """concrete inputs from a solver model (grid obligations: all indices concrete)"""
    arrs = []

    def val(name, idx, sort):
        a = T.app(name, [P(i) for i in idx], sort) if sort != 'B' else T.bapp(name, [P(i) for i in idx])
        z = tr.poly(a) if sort != 'B' else tr.bool(a)
        v = model.eval(z, model_completion=True)
        if sort == 'B':
            return z3.is_true(v)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if z3.is_int_value(v):
            return v.as_long()
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    from .contract import rdim
    for p in spec.args:
        shape = tuple(int(rdim(s, g)) for s in p.shape)
        nm = getattr(p, 'symname', p.name)
        if p.name in fixed:
            arrs.append(fixed[p.name])
            continue
        if p.kind == 'c':
            a = np.zeros(shape, complex)
        else:
            a = np.zeros(shape, {'f': float, 'i': np.int64, 'b': bool}[p.kind])
        for idx in np.ndindex(*shape):
            if p.kind == 'c':
                a[idx] = val(nm + '.re', idx, 'R') + 1j * val(nm + '.im', idx, 'R')
            else:
                a[idx] = val(nm, idx, {'f': 'R', 'i': 'I', 'b': 'B'}[p.kind])
        arrs.append(a)
    return arrs


class Outcome:
    def __init__(self, spec):
        self.name = spec.name
        self.level = None        # proved-all-sizes | proved-listed-sizes | bounded
        self.obs = []
        self.notes = []
        self.violation = None    # dict
        self.prims = set()
        self.axioms = set()
        self.numeric = 0
        self.grid_points = 0
        self.wall = 0.0
        self.targets = spec.targets

    def to_json(self):
        by = {}
        for o in self.obs:
            by.setdefault(o.backend, [0, 0.0])
            by[o.backend][0] += 1
            by[o.backend][1] += o.time
        return {'contract': self.name, 'level': self.level, 'obligations': len(self.obs),
                'discharged': sum(o.status == 'proved' for o in self.obs),
                'by_backend': {k: v[0] for k, v in by.items()}, 'solver_s': round(sum(v[1] for v in by.values()), 3),
                'undischarged': [{'name': o.name, 'status': o.status, 'scope': o.scope, 'detail': o.detail[:400]}
                                 for o in self.obs if o.status != 'proved'][:6],
                'notes': self.notes[:8], 'executions': self.numeric, 'sizes_deduced': self.grid_points,
                'axioms': sorted(self.axioms), 'targets': list(self.targets),
                'violation': self.violation, 'wall_s': round(self.wall, 2)}


def short(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-3:]))
    return '%s: %s (%s)' % (type(e).__name__, str(e)[:160].replace('\n', ' '), loc)


def run_numeric(spec, out, env, n, seed, why):
    """returns violation dict or None"""
    ran = 0
    for arrs in spec.sampled(env, n, seed):
        bad = spec.execute(env, arrs)
        if bad is None:
            continue
        ran += 1
        out.numeric += 1
        if bad:
            return violation(spec, env, arrs, bad, why)
    if ran == 0 and n > 0:
        out.notes.append('no admissible sample at %s' % (env,))
    return None


def violation(spec, env, arrs, bad, why):
    return {'contract': spec.name, 'sizes': {k: int(v) for k, v in env.items()},
            'inputs': {p.name: np.asarray(a).tolist() if not np.iscomplexobj(a) else [str(z) for z in np.asarray(a).ravel().tolist()]
                       for p, a in zip(spec.args, arrs)},
            'failed': [{'postcondition': l, 'observed': d} for l, d in bad[:5]], 'found_by': why, 'failing_input': True}


def try_model(spec, out, g, ob):
    r = ob.model
    if r is None or getattr(r, 'model', None) is None:
        return None
    try:
        arrs = model_arrays(spec, g, r.model, r.tr, getattr(spec, 'last_fixed', {}))
    except Exception as e:
        out.notes.append('model not extractable: %s' % short(e))
        return None
    pass
    try:
        bad = spec.execute(g, arrs)
    except Exception as e:
        out.notes.append('model replay error: %s' % short(e))
        return None
    out.numeric += 1
    if bad:
        return violation(spec, g, arrs, bad, 'solver model of "%s"' % ob.name)
    return None


def decide(spec, tier='quick', seed=1, budget=60.0, deduce=True):
    t0 = time.time()
    out = Outcome(spec)
    if not deduce:
        spec.deduce = False
        out.notes.append('the deduction gave no answer in time: the contract is executed only')
    try:
        _decide(spec, out, tier, seed, t0, budget)
    finally:
        out.wall = time.time() - t0
    return out


def _decide(spec, out, tier, seed, t0, budget):
    thorough = tier == 'thorough'
    sym_ok = undis = False
    extra_dims = []
    refuted = []
    if spec.sym and spec.deduce:
        try:
            res = spec.run_symbolic()
            sym_ok = bool(res)
            for env, hyps, obs, it, err in res:
                out.obs += obs
                if it is not None:
                    out.prims |= it.prims
                    out.axioms |= it.axioms_used
                if err is not None or not obs or any(o.status != 'proved' for o in obs):
                    sym_ok = False
                    if err is not None:
                        out.notes.append('symbolic sizes: %s' % short(err))
                    try:
                        extra_dims += dims_for(env, hyps)
                    except Exception as e:
                        out.notes.append('dims: %s' % short(e))
        except Exception as e:
            out.notes.append('symbolic sizes: %s' % short(e))
            sym_ok = False
    if not sym_ok:
        # keep only evidence of what was discharged
        out.obs = [o for o in out.obs if o.status == 'proved']
    # deductive at listed sizes
    grid_ok = spec.deduce
    if spec.deduce and not (sym_ok and spec.light and not thorough):
        grid = spec.grid[:2] if sym_ok and not thorough else list(spec.grid)
        small = [g for g in extra_dims if all(v <= 6 for v in g.values())]
        for g in small:
            if g not in grid:
                grid.append(g)
        misses = 0
        for g in grid:
            if time.time() - t0 > budget * (4 if thorough else 1):
                out.notes.append('time budget: sizes %s not deduced' % (g,))
                break
            try:
                obs, it = spec.run_grid_point(g)
            except Exception as e:
                out.notes.append('sizes %s: %s' % (g, short(e)))
                grid_ok = False
                misses += 1
                if misses >= 2:
                    break
                continue
            out.prims |= it.prims
            out.axioms |= it.axioms_used
            if not obs:
                grid_ok = False
                continue
            bad = [o for o in obs if o.status != 'proved']
            if not bad:
                out.grid_points += 1
                out.obs += obs
                continue
            grid_ok = False
            undis = True
            out.obs += [o for o in obs if o.status == 'proved']
            for o in bad:
                if o.status == 'refuted':
                    v = try_model(spec, out, g, o)
                    if v is not None:
                        out.violation = v
                        out.obs.append(o)
                        return
                    refuted.append((g, o))
                out.notes.append('%s at %s: %s' % (o.name, g, o.status + ' ' + o.detail[:160]))
            if g not in extra_dims:
                extra_dims.insert(0, g)
            misses += 1
            if misses >= 3:
                break
        if out.grid_points == 0:
            grid_ok = False
    # execution: replay around failed obligations, cross-check elsewhere
    pass
    proved = sym_ok or grid_ok
    n = spec.thorough_samples if thorough else spec.samples
    todo = []
    for g in extra_dims[:8]:
        todo.append((g, max(n, 8), 'sizes of an undischarged path'))
    for k, g in enumerate(spec.num):
        todo.append((g, n if not proved or thorough else max(2, n // 2), 'executed contract'))
    if not sym_ok and spec.dims and spec.num and getattr(spec, 'large', False):
        todo.append(({k: 8 * v for k, v in spec.num[-1].items()}, 2, 'executed contract, larger sizes'))
    if not proved:
        for g in spec.grid:
            if all(g != t[0] for t in todo):
                todo.append((g, n, 'executed contract'))
    for g, k, why in todo:
        v = run_numeric(spec, out, g, k, seed, why)
        if v is not None:
            out.violation = v
            return
    if refuted:
        g, o = refuted[0]
        out.obs.append(o)
        out.refuted_no_input = {'contract': spec.name, 'sizes': g, 'obligation': o.name, 'verifier_output': o.detail,
                                'model': str(getattr(o.model, 'model', ''))[:2000], 'failing_input': False,
                                'found_by': 'obligation refuted, no failing input reproduced'}
        out.notes.append('refuted without failing input: %s' % o.name)
    out.level = 'proved-all-sizes' if sym_ok else 'proved-listed-sizes' if grid_ok else 'bounded'
    if spec.deduce and out.level == 'bounded' and undis and not any('time budget' in n for n in out.notes):
        out.lost = {'contract': spec.name, 'obligation': spec.name + ': obligations discharged at the listed sizes', 'failing_input': False,
                    'verifier_output': ' | '.join(out.notes[:4]), 'found_by': 'the verifier no longer accepts this contract'}
    if out.level == 'bounded' and out.numeric == 0:
        out.level = 'undecided'
