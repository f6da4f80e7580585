"""SMT back end: translation of terms to z3 and a portfolio z3 / cvc5 driver."""
import sys
import time
import subprocess
import tempfile
import os
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
from . import terms as T  # noqa: E402

STATS = {'queries': 0, 'time': 0.0, 'decide_queries': 0, 'decide_time': 0.0, 'cvc5_queries': 0}


class Tr:
    """translator terms -> z3; sums and transcendental functions are uninterpreted"""

    def __init__(self, recip=False):
        self.recip, self.dens = recip, False     # recip: x / d as x * (1 / d), so that all quotients by a zero d agree
        self.cache = {}
        self.side = []      # axioms about abstracted atoms
        self.apps = {}      # (name,arity,sort) -> z3 func
        self.seen_vars = {}
        self.sumpat = {}
        self.abstract = set()   # uninterpreted abstractions used: a 'sat' answer is then no refutation

    def func(self, name, argsorts, sort):
        key = (name, tuple(argsorts), sort)
        if key not in self.apps:
            ss = [z3.IntSort() if s == 'I' else z3.RealSort() for s in argsorts]
            rs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort]
            self.apps[key] = z3.Function('%s_%d' % (name, len(self.apps)), *ss, rs)
        return self.apps[key]

    def real(self, p):
        e = self.poly(p)
        return z3.ToReal(e) if e.is_int() else e

    def poly(self, p):
        r = self.cache.get(p)
        if r is not None:
            return r
        if not p.terms:
            r = z3.IntVal(0)
        else:
            allint = p.sortI
            ts = []
            for m, c in p.terms.items():
                fs = []
                dens = []
                for a, e in m:
                    x = self.atom(a)
                    if not allint and x.is_int():
                        x = z3.ToReal(x)
                    if e > 0:
                        fs += [x] * e
                    else:
                        dens += [x] * (-e)
                if c != 1 or not fs:
                    cv = z3.IntVal(c) if allint else z3.RealVal(str(c))
                    fs = [cv] + fs
                q = fs[0]
                for f in fs[1:]:
                    q = q * f
                if dens:
                    q = z3.ToReal(q) if q.is_int() else q
                    d = dens[0]
                    for x in dens[1:]:
                        d = d * x
                    d = z3.ToReal(d) if d.is_int() else d
                    self.dens = True
                    q = q * (z3.RealVal(1) / d) if self.recip else q / d
                ts.append(q)
            r = ts[0]
            if len(ts) > 1:
                if not allint:
                    ts = [z3.ToReal(t) if t.is_int() else t for t in ts]
                r = z3.Sum(*ts)
        self.cache[p] = r
        return r

    def atom(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'var':
            nm = a.args[0]
            r = z3.Int(nm) if a.sort == 'I' else z3.Real(nm)
            if nm == '$INF':
                self.side.append(r > z3.RealVal(10) ** 30)
            if nm == '$PI':
                self.side.append(z3.And(r > z3.RealVal('3.14159265'), r < z3.RealVal('3.14159266')))
        elif k == 'app':
            args = [self.poly(x) for x in a.args[1:]]
            f = self.func(a.args[0], ['I' if x.is_int() else 'R' for x in args], a.sort)
            r = f(*args)
            nm = a.args[0]
            if nm in ('exp',):
                self.side.append(r > 0)
            if nm in T.NONNEG_APPS:
                self.side.append(r >= 0)
            if nm in UNINTERPRETED or nm[0] == '$':
                self.abstract.add(nm)
            self.cache[a] = r
            if nm in APP_FACTS:
                for fact in APP_FACTS[nm](a):
                    self.side.append(self.bool(fact))
        elif k == 'sqrt':
            x = self.real(a.args[0])
            r = z3.Real('sqrt!%d' % a.id)
            self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            f = self.func('sqrtf', ['R'], 'R')
            self.side.append(r == f(x))
        elif k == 'pos':
            x = self.poly(a.args[0])
            z = z3.IntVal(0) if x.is_int() else z3.RealVal(0)
            r = z3.If(x > z, x, z)
        elif k == 'br':
            r = z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'ite':
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if x.is_int() != y.is_int():
                x, y = self.real(a.args[1]), self.real(a.args[2])
            r = z3.If(self.bool(a.args[0]), x, y)
        elif k == 'poly':
            r = self.real(a.args[0])
        elif k == 'sign':
            x = self.poly(a.args[0])
            r = z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
        elif k == 'floor':
            r = z3.ToInt(self.real(a.args[0]))
        elif k == 'fdiv':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            r = z3.Int('fdiv!%d' % a.id)
            if a.args[1].const is not None and a.args[1].const > 0:
                r = x / y
            else:
                self.side.append(z3.Implies(y > 0, z3.And(r * y <= x, x < r * y + y)))
        elif k == 'sum':
            self.abstract.add('sum')
            fvs = sorted(a.fv, key=lambda v: v.id)
            f = self._sumfunc(a, fvs)
            args = [self.atom(v) for v in fvs]
            nm = f
            if fvs:
                r = self.func(nm, [v.sort for v in fvs], a.sort)(*args)
            else:
                r = z3.Int(nm) if a.sort == 'I' else z3.Real(nm)
            if T.nonneg_syntactic(a.args[2]):
                self.side.append(r >= 0)
        else:
            self.abstract.add(k)
            fvs = sorted(a.fv, key=lambda v: v.id)
            nm = 'op_%s_%d' % (k, a.id)
            r = z3.Int(nm) if a.sort == 'I' else z3.Real(nm)
        self.cache[a] = r
        return r

    def _sumfunc(self, a, fvs):
        env = {v: T.of_atom(T.mk_atom('var', ('$p%d' % i,), v.sort)) for i, v in enumerate(fvs)}
        pat = T.subst(T.of_atom(a), env) if env else T.of_atom(a)
        key = pat.id
        if key not in self.sumpat:
            self.sumpat[key] = 'SUM!%d' % len(self.sumpat)
        return self.sumpat[key]

    def bool(self, b):
        r = self.cache.get(b)
        if r is not None:
            return r
        op = b.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'le':
            r = self.poly(b.args[0]) <= 0
        elif op == 'eq':
            r = self.poly(b.args[0]) == 0
        elif op == 'not':
            r = z3.Not(self.bool(b.args[0]))
        elif op == 'and':
            r = z3.And(*[self.bool(x) for x in b.args])
        elif op == 'or':
            r = z3.Or(*[self.bool(x) for x in b.args])
        elif op == 'app':
            args = [self.poly(x) for x in b.args[1:]]
            if args:
                r = self.func(b.args[0], ['I' if x.is_int() else 'R' for x in args], 'B')(*args)
            else:
                r = z3.Bool(b.args[0])
        elif op in ('forall', 'exists'):
            vs, ns, body = b.args
            sub = Tr.__new__(Tr)
            sub.__dict__ = dict(self.__dict__)
            sub.side = []
            sub.cache = dict(self.cache)
            zv = [sub.atom(v) for v in vs]
            rng = z3.And(*[z3.And(x >= 0, x < sub.poly(n)) for x, n in zip(zv, ns)])
            bd = sub.bool(body)
            if sub.side:
                # definitional side facts may mention the bound variables
                self.side.append(z3.ForAll(zv, z3.Implies(rng, z3.And(*sub.side))))
            r = z3.ForAll(zv, z3.Implies(rng, bd)) if op == 'forall' else z3.Exists(zv, z3.And(rng, bd))
        else:
            raise NotImplementedError(op)
        self.cache[b] = r
        return r


UNINTERPRETED = {'exp', 'log', 'sin', 'cos', 'cosq', 'tan', 'tanh', 'logistic', 'erf', 'erf_inv', 'acos', 'asin', 'atan', 'sinh',
                 'cosh', 'cbrt', 'lgamma', 'digamma', 'pow', 'atan2', 'dft_c', 'dft_s', 'asinh', 'acosh', 'atanh', 'log1p', 'expm1'}
APP_FACTS = {}   # name -> fn(atom) -> list of Bool facts (declared input ranges)


class Result:
    def __init__(self, status, model=None, backend='z3', time=0.0, tr=None, raw=''):
        self.status, self.model, self.backend, self.time, self.tr, self.raw = status, model, backend, time, tr, raw


def check_sat(assertions, timeout_ms=10000, want_model=True, use_cvc5=True, tactic=None):
    """satisfiability of a conjunction of Bool terms"""
    r = check_sat1(assertions, timeout_ms, want_model, use_cvc5, tactic, False)
    if r.status == 'sat' and r.tr.dens:
        r2 = check_sat1(assertions, timeout_ms, want_model, use_cvc5, tactic, True)
        if r2.status == 'unsat':
            return r2
    return r


def check_sat1(assertions, timeout_ms, want_model, use_cvc5, tactic, recip):
    t0 = time.time()
    tr = Tr(recip)
    zs = [tr.bool(b) for b in assertions]
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout_ms)
    for z in zs:
        s.add(z)
    done = 0
    while done < len(tr.side):
        s.add(tr.side[done])
        done += 1
    r = s.check()
    STATS['queries'] += 1
    dt = time.time() - t0
    STATS['time'] += dt
    if r == z3.unsat:
        return Result('unsat', backend='z3', time=dt, tr=tr)
    if r == z3.sat:
        return Result('sat', s.model(), 'z3', dt, tr)
    if use_cvc5:
        st, out = run_cvc5(s.to_smt2(), timeout_ms)
        dt = time.time() - t0
        if st in ('unsat',):
            return Result(st, None, 'cvc5', dt, tr)
        if st == 'sat':
            return Result('sat', None, 'cvc5', dt, tr, out)
    return Result('unknown', None, 'z3+cvc5', dt, tr, s.reason_unknown())


def run_cvc5(smt2, timeout_ms):
    STATS['cvc5_queries'] += 1
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-cov', fn], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except Exception as e:
        out = 'error %r' % (e,)
    finally:
        os.unlink(fn)
    STATS['time'] += time.time() - t0
    return (out if out in ('sat', 'unsat') else 'unknown'), out


class Decider:
    """incremental decision procedure for index/branch conditions under assumptions;
    sound: returns True/False only when z3 proves it."""

    def __init__(self, hyps, timeout_ms=400):
        self.hyps = list(hyps)
        self.cache = {}
        self.timeout = timeout_ms
        self.tr = Tr()
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.nside = 0
        for h in self.hyps:
            self.s.add(self.tr.bool(h))
        self._sync()
        self.busy = False

    def _sync(self):
        while self.nside < len(self.tr.side):
            self.s.add(self.tr.side[self.nside])
            self.nside += 1

    def add(self, h):
        self.hyps.append(h)
        self.s.add(self.tr.bool(h))
        self._sync()
        self.cache = {}

    def __call__(self, c, extra=T.TRUE):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        key = (c, extra)
        if key in self.cache:
            return self.cache[key]
        if self.busy:
            return None
        self.busy = True
        t0 = time.time()
        try:
            zc = self.tr.bool(c)
            ze = self.tr.bool(extra)
            self._sync()
            r = None
            self.s.push()
            self.s.add(ze, z3.Not(zc))
            if self.s.check() == z3.unsat:
                r = True
            self.s.pop()
            if r is None:
                self.s.push()
                self.s.add(ze, zc)
                if self.s.check() == z3.unsat:
                    r = False
                self.s.pop()
        finally:
            self.busy = False
        STATS['decide_queries'] += 2
        STATS['decide_time'] += time.time() - t0
        self.cache[key] = r
        return r


def _add_range(self, v, n):
    h = T.implies(T.ge(n, 1), T.conj(T.ge(v, 0), T.lt(v, n)))
    self.s.add(self.tr.bool(h))
    self._sync()


Decider.add_range = _add_range
