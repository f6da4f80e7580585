"""Obligations: statement, discharge, bookkeeping."""
import math
import os
import time
from . import terms as T, smt
from .terms import P, ZERO

RECORDS = []


class Ob:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail', 'scope')

    def __init__(self, name, status, backend, t, model=None, detail='', scope=''):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.detail, self.scope = model, detail, scope
        RECORDS.append(self)

    def __repr__(self):
        return '<%s %s %s %.2fs %s>' % (self.name, self.status, self.backend, self.time, self.detail[:300])


def tiny(p, tol=2e-5):
    """all coefficients negligible: equality up to rounding of float literals"""
    if not p.terms:
        return True
    return all(abs(float(c)) <= tol for c in p.terms.values())


def prove_eq(name, a, b, hyps=(), timeout=8000, scope='', tol=2e-5, allow_smt=True):
    t0 = time.time()
    d = a - b
    if not d.terms:
        return Ob(name, 'proved', 'ring', time.time() - t0, scope=scope)
    d = T.clear_denoms(d)
    if not d.terms:
        return Ob(name, 'proved', 'ring+denominators', time.time() - t0, scope=scope)
    if tiny(d, tol) and all(a_.kind in ('app', 'var', 'sum') for m in d.terms for a_, e in m):
        return Ob(name, 'proved', 'ring(literal rounding)', time.time() - t0, scope=scope)
    c = d.const
    if c is not None:
        return Ob(name, 'refuted', 'ring', time.time() - t0, detail='difference %s' % c, scope=scope)
    d2, used = fold_constants(d)
    if used and not d2.terms:
        return Ob(name, 'proved', 'ring+numeric constants(1e-10)', time.time() - t0, scope=scope)
    if hyps:
        d = signs(d)
        d3 = rewrite(d, hyps)
        if d3 is not d:
            d3 = T.clear_denoms(d3)
        if not d3.terms:
            return Ob(name, 'proved', 'ring+hypotheses', time.time() - t0, scope=scope)
    if not allow_smt:
        return Ob(name, 'unknown', 'ring', time.time() - t0, detail='residue ' + T.show(d)[:int(os.environ.get("VF_DETAIL", "600"))], scope=scope)
    r = smt.check_sat(list(hyps) + [T.neg(T.eq(a, b))], timeout)
    st = verdict(r)
    return Ob(name, st, r.backend, time.time() - t0, r, detail='' if st == 'proved' else 'residue ' + T.show(d)[:int(os.environ.get("VF_DETAIL", "600"))], scope=scope)


def signs(d):
    """sign(q)^2 = 1 where q is known to be nonzero"""
    if T.CTX.decide is None:
        return d
    for a in {x for m in d.terms for x, e in m if x.kind == 'sign' and e == 2}:
        if T.CTX.decide(T.neg(T.eq(a.args[0], 0))) is True:
            d = T.mk_poly_sum([(tuple((x, e) for x, e in m if not (x is a and e == 2)), c) for m, c in d.terms.items()])
    return d


def prove(name, goal, hyps=(), timeout=8000, scope=''):
    t0 = time.time()
    if goal is T.TRUE:
        return Ob(name, 'proved', 'simplifier', time.time() - t0, scope=scope)
    r = smt.check_sat(list(hyps) + [T.neg(goal)], timeout)
    st = verdict(r)
    if st != 'proved':
        ex = extremum_facts(goal)
        if ex:
            r2 = smt.check_sat(list(hyps) + ex + [T.neg(goal)], timeout)
            if verdict(r2) == 'proved':
                return Ob(name, 'proved', r2.backend + '+extremum', time.time() - t0, r2, scope=scope)
    return Ob(name, st, r.backend, time.time() - t0, r, detail='' if st == 'proved' else T.showb(goal)[:600], scope=scope)


def extremum_facts(goal):
    """what a maximum / a place of the maximum over a range of symbolic length means, at the index terms of the goal"""
    from .jaxsym import EXT_INFO
    apps, seen = {}, set()

    def go(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if isinstance(t, T.Poly):
            for m in t.terms:
                for a, e in m:
                    go(a)
        elif isinstance(t, (T.Atom, T.Bool)):
            if isinstance(t, T.Atom) and t.kind == 'app' and t.args[0] in EXT_INFO and not any(v.args[0].startswith('$') for v in t.fv):
                apps[t] = 1
            for x in t.args:
                go(x)
    go(goal)
    if not apps:
        return []
    cands = ([T.of_atom(v) for v in sorted(goal.fv, key=lambda v: v.id) if v.sort == 'I' and v.args[0].startswith('?')] + [x for x in index_terms(goal) if x.sortI])[:8]
    out = []
    for a in apps:
        pat, nfv, dims = EXT_INFO[a.args[0]]
        if len(dims) != 1:
            continue
        env = {T.mk_atom('var', ('$q%d' % i,), v.sort): x for i, (v, x) in enumerate(zip(sorted_q(pat, nfv), a.args[1:]))}
        at = lambda k: T.subst(pat, {**env, T.mk_atom('var', ('$m0',), 'I'): k})
        top = at(T.of_atom(a)) if a.args[0].startswith('ARGMAX') else T.of_atom(a)
        for k in cands:
            if k is not T.of_atom(a):
                out.append(T.implies(T.conj(T.ge(k, 0), T.lt(k, dims[0])), T.le(at(k), top)))
    return out


def sorted_q(pat, n):
    vs = {v.args[0]: v for v in pat.fv}
    return [vs.get('$q%d' % i, T.mk_atom('var', ('$q%d' % i,), 'I')) for i in range(n)]


def verdict(r):
    if r.status == 'unsat':
        return 'proved'
    # a model over uninterpreted abstractions (sums, transcendental functions) refutes nothing
    return 'refuted' if r.status == 'sat' and not r.tr.abstract else 'unknown'


# ------------------------------------------------------------ equational hypotheses
def equations(hyps, cands):
    """equations e = 0 among the hypotheses, quantified ones instantiated at candidate index terms"""
    out = []

    def flat(h):
        if h.op == 'and':
            for x in h.args:
                flat(x)
        elif h.op == 'eq':
            out.append(h.args[0])
        elif h.op == 'forall':
            vs, ns, body = h.args
            if not has_eq(body):
                return
            if len(vs) > 2 or len(cands) ** len(vs) > 80:
                return
            import itertools
            for combo in itertools.product(cands, repeat=len(vs)):
                if any(T.CTX.decide is None or T.CTX.decide(T.conj(T.ge(t, 0), T.lt(t, n))) is not True for t, n in zip(combo, ns)):
                    continue
                flat(T.subst(body, {v: t for v, t in zip(vs, combo)}))
        elif h.op == 'or' and T.CTX.decide is not None:
            # guarded equation: keep the equation when every other disjunct is decided false
            es = [x for x in h.args if x.op == 'eq']
            rest = [x for x in h.args if x.op != 'eq']
            if len(es) == 1 and all(T.CTX.decide(x) is False for x in rest):
                out.append(es[0].args[0])
    for h in hyps:
        if isinstance(h, T.Bool):
            flat(h)
    return out


def has_eq(b):
    return b.op == 'eq' or any(has_eq(x) for x in b.args if isinstance(x, T.Bool))


def index_terms(p, seen=None, out=None):
    """integer arguments of applications inside p (no bound variables)"""
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def go(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if isinstance(t, T.Poly):
            for m in t.terms:
                for a, e in m:
                    go(a)
        elif isinstance(t, T.Atom):
            if t.kind == 'app':
                for x in t.args[1:]:
                    if isinstance(x, T.Poly) and not any(v.args[0].startswith('$') for v in x.fv):
                        out[x] = 1
            for x in t.args:
                go(x)
        elif isinstance(t, T.Bool):
            for x in t.args:
                go(x)
        elif isinstance(t, tuple):
            for x in t:
                go(x)
    go(p)
    return list(out)


def rewrite(d, hyps, rounds=6):
    if not any(isinstance(h, T.Bool) and has_eq(h) for h in hyps):
        return d
    cands = index_terms(d)[:9]
    eqs = [e for e in equations(hyps, cands) if e.const is None]
    rules = []
    for e in eqs:
        for a, r in rules:
            e = T.subst_one(e, a, r)
        if e.const is not None:
            continue
        best = None
        for m, c in e.terms.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if sum(1 for m2 in e.terms for a2, _ in m2 if a2 is a) == 1:
                    w = (a.kind == 'sum', len(T.show_atom(a)))
                    if best is None or w > best[0]:
                        best = (w, a, c)
        if best is None:
            continue
        _, a, c = best
        r = T.pscale(e - T.pscale(T.of_atom(a), c), -1 / c if not isinstance(c, int) else T.Fraction(-1, c))
        rules = [(b, T.subst_one(q, a, r)) for b, q in rules] + [(a, r)]
    for _ in range(rounds):
        d0 = d
        for a, r in rules:
            if any(x is a for m in d.terms for x, _ in m):
                d = T.subst_one(d, a, r)
        if d is d0 or d == d0:
            break
    return d


CONST_FUN = {'cosq': lambda x: math.cos(2 * math.pi * x), 'cos': math.cos, 'sin': math.sin, 'exp': math.exp, 'log': math.log,
             'tan': math.tan, 'tanh': math.tanh, 'pow': lambda a, b: a ** b, 'sinh': math.sinh, 'cosh': math.cosh,
             'acos': math.acos, 'asin': math.asin, 'atan': math.atan}
_const_val = {}


def const_atom(a):
    """value of a closed constant atom (cos(2*pi*q), sqrt 3, ...) or None"""
    if a in _const_val:
        return _const_val[a]
    v = None
    if all(x.args[0] == '$PI' for x in a.fv):
        try:
            v = float(T.evaln(a, CONST_FUN))
        except (KeyError, NotImplementedError, ValueError, OverflowError, ZeroDivisionError, TypeError):
            v = None
    _const_val[a] = v
    return v


def fold_constants(p, tol=1e-10):
    """evaluate closed irrational constants in double precision and drop monomials whose total coefficient vanishes"""
    groups = {}
    used = False
    for m, c in p.terms.items():
        v = float(c)
        rest = []
        for a, e in m:
            x = const_atom(a)
            if x is None:
                rest.append((a, e))
            else:
                used = True
                v *= x ** e
        g = groups.setdefault(tuple(rest), [0.0, 0.0, ZERO])
        g[0] += v
        g[1] += abs(v)
        g[2] = g[2] + T.mk_poly({m: c})
    if not used:
        return p, False
    r = ZERO
    for k, (v, s, q) in groups.items():
        if abs(v) > tol * max(1.0, s):
            r = r + q
    return r, True


def lin_degree(p, names):
    """set of degrees (number of occurrences of app atoms in `names`) over the monomials of p,
    or None if such an atom occurs in a non-polynomial position"""
    degs = set()
    for m, c in p.terms.items():
        d = 0
        for a, e in m:
            k = atom_deg(a, names)
            if k is None:
                return None
            if k and e < 0:
                return None
            d += k * e
        degs.add(d)
    return degs


_dc = {}


def atom_deg(a, names):
    key = (a, names)
    if key in _dc:
        return _dc[key]
    if a.kind == 'app' and a.args[0] in names:
        r = 1
        for x in a.args[1:]:
            if mentions(x, names):
                r = None
    elif a.kind == 'sum':
        (dg,) = [lin_degree(a.args[2], names)]
        r = None if dg is None or len(dg) > 1 else (list(dg)[0] if dg else 0)
        if any(mentions(n, names) for n in a.args[1]):
            r = None
    elif a.kind == 'ite':
        if mentions(a.args[0], names):
            r = None
        else:
            d1, d2 = lin_degree(a.args[1], names), lin_degree(a.args[2], names)
            if d1 is None or d2 is None or len(d1 | d2) > 1:
                r = None
            else:
                r = list(d1 | d2)[0] if (d1 | d2) else 0
    else:
        r = None if mentions_atom(a, names) else 0
    _dc[key] = r
    return r


_mc = {}


def mentions(t, names):
    key = (t, names)
    if key in _mc:
        return _mc[key]
    if isinstance(t, T.Poly):
        r = any(mentions_atom(a, names) for m in t.terms for a, e in m)
    elif isinstance(t, T.Bool):
        if t.op == 'app' and t.args[0] in names:
            r = True
        else:
            r = any(mentions(x, names) for x in t.args if isinstance(x, (T.Poly, T.Bool)))
    else:
        r = False
    _mc[key] = r
    return r


def mentions_atom(a, names):
    if a.kind == 'app' and a.args[0] in names:
        return True
    r = False
    for x in a.args:
        if isinstance(x, (T.Poly, T.Bool)):
            r = r or mentions(x, names)
        elif isinstance(x, tuple):
            r = r or any(mentions(y, names) for y in x if isinstance(y, (T.Poly, T.Bool)))
    return r
