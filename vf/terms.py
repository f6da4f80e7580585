"""Symbolic terms: multivariate "tensor polynomials" over atoms, with exact
rational coefficients, integer exponents (negative = reciprocal), and finite
sums over symbolic ranges.  Booleans are a separate hash-consed algebra.

Numeric terms of sort Int and Real share one representation (Poly); the
int->float conversion is therefore the identity.
"""
from fractions import Fraction
from itertools import permutations
import math
import numpy as np

# ----------------------------------------------------------------- atoms
_atoms = {}


class Atom:
    __slots__ = ('kind', 'args', 'sort', 'id', 'fv', 'lvl')

    def __repr__(self):
        return show_atom(self)


def _fv_of(args):
    fv = frozenset()
    lvl = 0
    for a in args:
        if isinstance(a, (Poly, Bool)):
            fv |= a.fv
            lvl = max(lvl, a.lvl)
        elif isinstance(a, Atom):
            fv |= a.fv
            lvl = max(lvl, a.lvl)
        elif isinstance(a, tuple):
            f, l = _fv_of(a)
            fv |= f
            lvl = max(lvl, l)
    return fv, lvl


def mk_atom(kind, args, sort):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.sort = sort
        a.id = len(_atoms)
        if kind == 'var':
            a.fv = frozenset([a])
            a.lvl = 0
        else:
            a.fv, a.lvl = _fv_of(args)
            if kind == 'sum':
                a.fv = frozenset(v for v in a.fv if v not in set(args[0]))
        _atoms[key] = a
    return a


# ----------------------------------------------------------------- polys
_polys = {}


class Poly:
    __slots__ = ('terms', 'id', '_h', 'fv', 'lvl', 'sortI')

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # operators
    def __add__(self, o):
        return padd(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, P(o), -1)

    def __rsub__(self, o):
        return padd(P(o), self, -1)

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)

    def __pow__(self, k):
        return ppow(self, k)

    def __truediv__(self, o):
        return pmul(self, pinv(P(o)))

    def __rtruediv__(self, o):
        return pmul(P(o), pinv(self))

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return len(self.terms) == 0 or (len(self.terms) == 1 and () in self.terms)

    @property
    def const(self):
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None


def _canon(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mk_poly(terms):
    """terms: dict mon -> coeff (already reduced monomials, zero coeffs removed)"""
    key = frozenset(terms.items())
    p = _polys.get(key)
    if p is None:
        p = Poly.__new__(Poly)
        p.terms = terms
        p.id = len(_polys)
        p._h = hash(key)
        fv = frozenset()
        lvl = 0
        sI = True
        for m, c in terms.items():
            if type(c) is not int:
                sI = False
            for a, e in m:
                fv |= a.fv
                if a.lvl > lvl:
                    lvl = a.lvl
                if a.sort != 'I' or e < 0:
                    sI = False
        p.fv = fv
        p.lvl = lvl
        p.sortI = sI
        _polys[key] = p
    return p


ZERO = mk_poly({})
ONE = mk_poly({(): 1})


def const(c):
    if isinstance(c, (bool, np.bool_)):
        c = int(c)
    if isinstance(c, (int, np.integer)):
        c = int(c)
        return mk_poly({(): c}) if c else ZERO
    if isinstance(c, Fraction):
        c = _canon(c)
        return mk_poly({(): c}) if c else ZERO
    return float_const(c)


_fc = {}
INF_ATOM = None
NAN_ATOM = None


def float_const(x):
    """Real number denoted by a float literal: shortest decimal, except values
    that are recognisably sqrt(p/q) or multiples of pi (rounded irrationals)."""
    global INF_ATOM, NAN_ATOM
    if isinstance(x, np.floating):
        dt = x.dtype
        s = repr(float(x)) if dt == np.float64 else str(x)
        digs = 15 if dt == np.float64 else 7
    else:
        s = repr(float(x))
        digs = 15
    key = (s, digs)
    if key in _fc:
        return _fc[key]
    v = float(x)
    if math.isnan(v):
        r = var('$NAN', 'R')
    elif math.isinf(v):
        r = var('$INF', 'R')
        if v < 0:
            r = -r
    elif v == int(v) and abs(v) < 1e15:
        r = const(int(v))
    else:
        r = None
        mant = s.lower().split('e')[0].replace('-', '').replace('.', '').strip('0')
        # python floats routed through float32 show 15+ digits: round first
        f32 = np.float32(v)
        if digs == 15 and float(f32) == v:
            s2 = str(f32)
            mant2 = s2.lower().split('e')[0].replace('-', '').replace('.', '').strip('0')
            if len(mant2) < len(mant):
                s, mant, digs = s2, mant2, 7
        tol = 4e-7 if digs == 7 else 1e-14
        fr = None
        if len(mant) >= digs:
            q = Fraction(v / math.pi).limit_denominator(512)
            if q != 0 and abs(float(q) * math.pi - v) <= tol / 2 * abs(v) and q.denominator <= 256:
                r = const(q) * var('$PI', 'R')
            if r is None:
                fr0 = Fraction(v).limit_denominator(360)
                if fr0 != 0 and abs(float(fr0) - v) <= tol / 4 * abs(v):
                    fr = fr0
            if r is None and fr is None:
                sq = Fraction(v * v).limit_denominator(512)
                if sq != 0 and abs(float(sq) - v * v) <= tol * v * v and sq.numerator < 4096:
                    r = sqrt_const(sq)
                    if v < 0:
                        r = -r
            if r is None and fr is None:
                fr0 = Fraction(v).limit_denominator(5040)
                if fr0 != 0 and abs(float(fr0) - v) <= tol / 4 * abs(v):
                    fr = fr0
        if r is None:
            if fr is not None:
                r = const(fr)
            else:
                r = const(Fraction(s))
    _fc[key] = r
    return r


def sqrt_const(q):
    """sqrt of a positive rational, square factors extracted"""
    q = Fraction(q)
    if q == 0:
        return ZERO
    n = q.numerator * q.denominator
    out = Fraction(1, q.denominator)
    f = 2
    while f * f <= n and f < 100000:
        while n % (f * f) == 0:
            n //= f * f
            out *= f
        f += 1
    r = math.isqrt(n)
    if r * r == n:
        return const(out * r)
    a = mk_atom('sqrt', (const(n),), 'R')
    return pscale(mk_poly({((a, 1),): 1}), out)


def P(x):
    if isinstance(x, Poly):
        return x
    return const(x)


def mk_poly_sum(pairs):
    d = {}
    for m, c in pairs:
        d[m] = d.get(m, 0) + c
    return mk_poly({m: c for m, c in d.items() if c})


def of_atom(a):
    return mk_poly({((a, 1),): 1})


def var(name, sort='R'):
    return of_atom(mk_atom('var', (name,), sort))


def app(fname, args, sort='R'):
    return of_atom(mk_atom('app', (fname,) + tuple(P(a) for a in args), sort))


_add_cache = {}


def padd(p, q, s=1):
    if not q.terms:
        return p
    if not p.terms and s == 1:
        return q
    key = (p.id, q.id, s)
    r = _add_cache.get(key)
    if r is not None:
        return r
    t = dict(p.terms)
    for m, c in q.terms.items():
        v = t.get(m, 0) + (c if s == 1 else -c)
        if v == 0:
            t.pop(m, None)
        else:
            t[m] = _canon(v)
    r = mk_poly(t)
    _add_cache[key] = r
    return r


def pscale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk_poly({m: _canon(v * c) for m, v in p.terms.items()})


_mul_cache = {}


def pmul(p, q):
    if p is q and len(p.terms) > 1:
        r = _pmul(p, q)
        NONNEG_IDS.add(r.id)
        return r
    return _pmul(p, q)


def _pmul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    if p.id > q.id:
        p, q = q, p
    key = (p.id, q.id)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    pc = p.const
    qc = q.const
    if pc is not None:
        r = pscale(q, pc)
    elif qc is not None:
        r = pscale(p, qc)
    else:
        t = {}
        extra = []
        for m1, c1 in p.terms.items():
            for m2, c2 in q.terms.items():
                m, red = mon_mul(m1, m2)
                if red is None:
                    v = t.get(m, 0) + c1 * c2
                    if v == 0:
                        t.pop(m, None)
                    else:
                        t[m] = _canon(v)
                else:
                    extra.append(pscale(red, c1 * c2))
        r = mk_poly(t)
        for e in extra:
            r = padd(r, e)
    _mul_cache[key] = r
    return r


def mon_mul(m1, m2):
    """product of monomials; returns (mon,None) or (None, Poly) if reductions fire"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
    return _mon_norm(d)


def _mon_norm(d):
    red = None
    nsqrtc = 0
    nbr = 0
    for a, e in d.items():
        k = a.kind
        if k == 'sqrt':
            if e >= 2 or e <= -2:
                red = a
                break
            if a.args[0].is_const:
                if e < 0:
                    red = a
                    break
                nsqrtc += 1
        elif k == 'pos':
            if e >= 2:
                red = a
                break
        elif k == 'br':
            if e != 1:
                red = a
                break
            nbr += 1
        elif k == 'poly':
            if e > 0:
                red = a
                break
        elif k == 'sign':
            if e >= 3:
                red = a
                break
    if red is None and nsqrtc <= 1 and nbr <= 1:
        return tuple(sorted(d.items(), key=_akey)), None
    d = dict(d)
    if red is not None:
        e = d.pop(red)
        rest = _from_d(d)
        k = red.kind
        if k == 'sqrt':
            arg = red.args[0]
            if e > 0:
                f = pmul(ppow(arg, e // 2), of_atom(red)) if e % 2 else ppow(arg, e // 2)
            elif arg.is_const:
                # 1/sqrt(c) = sqrt(c)/c
                h = (-e + 1) // 2
                f = pscale(of_atom(red) if e % 2 else ONE, Fraction(1, 1) / Fraction(arg.const) ** h)
            else:
                f = ppow(pinv(arg), (-e) // 2)
                if e % 2:
                    f2 = _from_d({red: -1})
                    f = pmul(f, f2)
            return None, pmul(rest, f)
        if k == 'pos':
            r = red.args[0]
            return None, pmul(rest, pmul(ppow(r, e - 1), of_atom(red)))
        if k == 'br':
            if e < 0:
                return tuple(sorted(list(d.items()) + [(red, e)], key=_akey)), None
            return None, pmul(rest, of_atom(red))
        if k == 'poly':
            return None, pmul(rest, ppow(red.args[0], e))
        if k == 'sign':
            return None, pmul(rest, _from_d({red: 1 + (e - 1) % 2}))
    if nsqrtc > 1:
        prod = 1
        for a in [a for a in d if a.kind == 'sqrt' and a.args[0].is_const]:
            prod *= a.args[0].const
            del d[a]
        return None, pmul(_from_d(d), sqrt_const(prod))
    if nbr > 1:
        conds = []
        for a in [a for a in d if a.kind == 'br']:
            conds.append(a.args[0])
            del d[a]
        return None, pmul(_from_d(d), br(conj(*conds)))


def _akey(x):
    return x[0].id


def _from_d(d):
    m, red = _mon_norm(d) if d else ((), None)
    return mk_poly({m: 1}) if red is None else red


def ppow(p, k):
    k = int(k)
    if k < 0:
        return ppow(pinv(p), -k)
    r = ONE
    b = p
    while k:
        if k & 1:
            r = pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def _sortmons(p):
    return sorted(p.terms.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))


def primitive(p):
    """p = c * q with q having leading coefficient 1 in a fixed order; returns c,q"""
    ms = _sortmons(p)
    c = ms[-1][1]
    return c, pscale(p, Fraction(1) / Fraction(c))


_inv_cache = {}


def pinv(p):
    r = _inv_cache.get(p)
    if r is not None:
        return r
    c = p.const
    if c is not None:
        if c == 0:
            r = var('$DIV0', 'R')
        else:
            r = const(Fraction(1) / Fraction(c))
    elif len(p.terms) == 1:
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == '$INF' and m[0][1] > 0:
            return ZERO
        d = {}
        for a, e in m:
            d[a] = -e
        r = pscale(_from_d(d), Fraction(1) / Fraction(c))
    else:
        c, q = primitive(p)
        # common monomial factor
        com = None
        for m in q.terms:
            dm = dict(m)
            if com is None:
                com = dm
            else:
                com = {a: min(e, dm[a]) for a, e in com.items() if a in dm and (e > 0) == (dm[a] > 0)}
        com = {a: e for a, e in (com or {}).items() if a.kind != 'br' and a.kind != 'pos' and not (a.kind == 'sqrt' and a.args[0].is_const)}
        if com:
            f = _from_d({a: -e for a, e in com.items()})
            q = pmul(q, f)
            r = pscale(pmul(f, pinv(q)), Fraction(1) / Fraction(c))
        else:
            a = mk_atom('poly', (q,), 'R')
            r = pscale(mk_poly({((a, -1),): 1}), Fraction(1) / Fraction(c))
    _inv_cache[p] = r
    return r


def leading_neg(p):
    return _sortmons(p)[-1][1] < 0


NONNEG_IDS = set()      # polynomials that arose as squares, or sums of squares


def mark_nonneg(p):
    if len(p.terms) > 1:
        NONNEG_IDS.add(p.id)
    return p


def nonneg_syntactic(p):
    if p.id in NONNEG_IDS:
        return True
    for m, c in p.terms.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind in ('sqrt', 'pos', 'br'):
                continue
            if a.kind == 'app' and a.args[0] in ('exp', 'logistic'):
                continue
            if a.kind == 'var' and a.args[0] in ('$PI', '$INF'):
                continue
            if a.kind == 'poly' and nonneg_syntactic(a.args[0]):
                continue
            if a.kind == 'sum' and nonneg_syntactic(a.args[2]):
                continue
            if a.kind == 'ite' and nonneg_syntactic(a.args[1]) and nonneg_syntactic(a.args[2]):
                continue
            if a.kind == 'app' and a.args[0] in NONNEG_APPS:
                continue
            return False
    return True


NONNEG_APPS = set()


def psqrt(p):
    c = p.const
    if c is not None:
        if c < 0:
            return var('$NAN', 'R')
        return sqrt_const(Fraction(c))
    # single monomial: extract squares
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c > 0:
            out = sqrt_const(Fraction(c))
            rest = []
            for a, e in m:
                if e % 2 == 0:
                    out = out * pabs(_from_d({a: e // 2}))
                else:
                    rest.append((a, e))
            if not rest:
                return out
            if len(rest) < len(m) or c != 1:
                return out * psqrt(_from_d(dict(rest)))
            if len(rest) == 1 and rest[0][1] < 0:
                return pinv(psqrt(_from_d({rest[0][0]: -rest[0][1]})))
    else:
        cc = Fraction(_sortmons(p)[-1][1])
        if cc > 0 and cc != 1:
            return sqrt_const(cc) * psqrt(pscale(p, 1 / cc))
    return of_atom(mk_atom('sqrt', (p,), 'R'))


def ppos(p):
    """max(p,0)"""
    c = p.const
    if c is not None:
        return p if c > 0 else ZERO
    if nonneg_syntactic(p):
        return p
    if nonneg_syntactic(-p):
        return ZERO
    cc, q = primitive(p)
    if cc < 0:
        # pos(p) = pos(-p) + p
        return ppos(-p) + p
    if p.sortI:
        return of_atom(mk_atom('pos', (p,), 'I'))
    return pscale(of_atom(mk_atom('pos', (q,), 'R')), cc)


def pabs(p):
    if nonneg_syntactic(p):
        return p
    if nonneg_syntactic(-p):
        return -p
    return ppos(p) * 2 - p


def pmax(p, q):
    return q + ppos(p - q)


def pmin(p, q):
    return q - ppos(q - p)


def psign(p):
    c = p.const
    if c is not None:
        return const((c > 0) - (c < 0))
    cc, q = primitive(p)
    a = of_atom(mk_atom('sign', (q,), 'I'))
    return a if cc > 0 else -a


def pfloor(p):
    if p.sortI:
        return p
    c = p.const
    if c is not None:
        return const(math.floor(c))
    # split integer part
    ip = {m: c for m, c in p.terms.items() if type(c) is int and all(a.sort == 'I' and e > 0 for a, e in m)}
    if ip and len(ip) < len(p.terms):
        rest = mk_poly({m: c for m, c in p.terms.items() if m not in ip})
        return mk_poly(ip) + pfloor(rest)
    return of_atom(mk_atom('floor', (p,), 'I'))


def pfloordiv(p, q):
    """floor division of integer terms"""
    pc, qc = p.const, q.const
    if qc is not None and pc is not None and qc != 0:
        return const(math.floor(Fraction(pc) / Fraction(qc)))
    if qc == 1:
        return p
    # exact division by q of some monomials
    quo, rem = ZERO, p
    if qc is not None:
        t = {m: c // qc for m, c in p.terms.items() if type(c) is int and c % qc == 0}
        if t:
            quo = mk_poly(t)
            rem = p - quo * q
    elif len(q.terms) == 1:
        (mq, cq), = q.terms.items()
        dq = dict(mq)
        t = {}
        for m, c in p.terms.items():
            dm = dict(m)
            if type(c) is int and c % cq == 0 and all(dm.get(a, 0) >= e for a, e in dq.items()):
                for a, e in dq.items():
                    dm[a] -= e
                    if dm[a] == 0:
                        del dm[a]
                mm = tuple(sorted(dm.items(), key=_akey))
                t[mm] = c // cq
        if t:
            quo = mk_poly(t)
            rem = p - quo * q
    if not rem.terms:
        return quo
    if CTX.decide is not None:
        if CTX.decide(conj(ge(rem, ZERO), lt(rem, q))) is True:
            return quo
    if rem.is_const and qc is not None:
        return quo + const(math.floor(Fraction(rem.const) / qc))
    return quo + of_atom(mk_atom('fdiv', (rem, q), 'I'))


def pmod(p, q):
    return p - q * pfloordiv(p, q)


# ---------------------------------------------------------------- booleans
_bools = {}


class Bool:
    __slots__ = ('op', 'args', 'id', 'fv', 'lvl')

    def __repr__(self):
        return showb(self)


def mk_bool(op, args):
    key = (op, args)
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.op = op
        b.args = args
        b.id = len(_bools)
        b.fv, b.lvl = _fv_of(args)
        if op in ('forall', 'exists'):
            b.fv = frozenset(v for v in b.fv if v not in set(args[0]))
        _bools[key] = b
    return b


TRUE = mk_bool('true', ())
FALSE = mk_bool('false', ())


class _Ctx:
    decide = None


CTX = _Ctx()


def B(x):
    if isinstance(x, Bool):
        return x
    return TRUE if bool(x) else FALSE


def le0(p):
    c = p.const
    if c is not None:
        return B(c <= 0)
    if any(a.args[0] == '$INF' for a in p.fv):
        # comparison of infinity with finite reals
        inf = [(m, c) for m, c in p.terms.items() if any(x.args[0] == '$INF' for a, e in m for x in a.fv)]
        if len(inf) == 1 and len(inf[0][0]) == 1 and inf[0][0][0][1] == 1 and inf[0][0][0][0].kind == 'var':
            return B(inf[0][1] < 0)
    if nonneg_syntactic(-p):
        return TRUE
    if len(p.terms) == 1 and not p.sortI:           # c * ite(b, x, y) <= 0 with a constant branch
        (m, c), = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite' and (m[0][0].args[1].is_const or m[0][0].args[2].is_const):
            b, x, y = m[0][0].args
            return bite(b, le0(pscale(x, c)), le0(pscale(y, c)))
    cc, q = primitive(p)
    if p.sortI:
        g = 0
        for m, c in p.terms.items():
            if m != ():
                g = math.gcd(g, abs(c))
        if g > 1:
            k = p.terms.get((), 0)
            t = {m: c // g for m, c in p.terms.items() if m != ()}
            kk = -((-k) // g)  # ceil(k/g):  g*s + k <=0  <=> s <= floor(-k/g)
            kk = -(math.floor(Fraction(-k, g)))
            if kk:
                t[()] = kk
            p = mk_poly(t)
        return mk_bool('le', (p,))
    p = pscale(p, 1 / abs(Fraction(cc)))
    return mk_bool('le', (p,))


def lt0(p):
    c = p.const
    if c is not None:
        return B(c < 0)
    if nonneg_syntactic(p):
        return FALSE
    if p.sortI:
        return le0(p + 1)
    return neg(le0(-p))


def eq0(p):
    c = p.const
    if c is not None:
        return B(c == 0)
    if len(p.terms) - (() in p.terms) == 1:       # c {b} + k = 0
        (m, c), = [t for t in p.terms.items() if t[0] != ()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'br':
            k = p.terms.get((), 0)
            return neg(m[0][0].args[0]) if k == 0 else m[0][0].args[0] if k == -c else FALSE
    cc, q = primitive(p)
    if p.sortI:
        inj = _inj_pair(p)
        if inj is not None:
            return inj
        g = 0
        for m, c in p.terms.items():
            if m != ():
                g = math.gcd(g, abs(c))
        k = p.terms.get((), 0)
        if k % g:
            return FALSE
        q = mk_poly({m: c // g for m, c in p.terms.items()})
        if leading_neg(q):
            q = -q
        return mk_bool('eq', (q,))
    return mk_bool('eq', (q,))


INJECTIVE_FIRST = set()
INJECTIVE_LAST = set()    # the same along the last axis only
INJECTIVE = set()    # names of integer arrays whose entries are pairwise distinct (declared input contract)


def _inj_pair(p):
    """f(i) - f(j) = 0 with f injective  <=>  i = j"""
    if len(p.terms) != 2:
        return None
    (m1, c1), (m2, c2) = p.terms.items()
    if c1 != -c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = m1[0][0], m2[0][0]
    if a.kind != 'app' or b.kind != 'app' or a.args[0] != b.args[0]:
        return None
    if a.args[0] in INJECTIVE_LAST and all(x is y for x, y in zip(a.args[1:-1], b.args[1:-1])):
        return eq(a.args[-1], b.args[-1])
    if a.args[0] in INJECTIVE_FIRST:
        return eq(a.args[1], b.args[1]) if all(x is y for x, y in zip(a.args[2:], b.args[2:])) else None
    if a.args[0] not in INJECTIVE:
        return None
    return conj(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])


def le(a, b):
    return le0(P(a) - P(b))


def lt(a, b):
    return lt0(P(a) - P(b))


def ge(a, b):
    return le0(P(b) - P(a))


def gt(a, b):
    return lt0(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def bapp(name, args):
    return mk_bool('app', (name,) + tuple(P(a) for a in args))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le' and b.args[0].sortI:
        return le0(-b.args[0] + 1)
    if b.op == 'and':
        return disj(*[neg(x) for x in b.args])
    if b.op == 'or':
        return conj(*[neg(x) for x in b.args])
    if b.op in ('forall', 'exists'):
        op = 'exists' if b.op == 'forall' else 'forall'
        if len(b.args[0]) == 1:
            return quant(op, of_atom(b.args[0][0]), b.args[1][0], neg(b.args[2]))
        return mk_bool(op, (b.args[0], b.args[1], neg(b.args[2])))
    return mk_bool('not', (b,))


def quant(op, v, n, body):
    """forall / exists over one index v < n, in a canonical form: distributed over conjunctions (disjunctions), bound variable renamed by nesting depth"""
    body = B(body)
    if (body is TRUE and op == 'forall') or (body is FALSE and op == 'exists'):
        return body
    if body.op == ('and' if op == 'forall' else 'or'):
        return (conj if op == 'forall' else disj)(*[quant(op, v, n, x) for x in body.args])
    k = _qdepth(body)
    q = of_atom(mk_atom('var', ('$q%d' % k,), 'I'))
    va = the_var(v)
    if va is not the_var(q):
        body = subst(body, {va: q})
        if body.op == ('and' if op == 'forall' else 'or') or body is TRUE or body is FALSE:
            return mk_bool(op, ((the_var(q),), (P(n),), body))
    return mk_bool(op, ((the_var(q),), (P(n),), body))


_qd = {}


def _qdepth(t):
    """1 + the largest depth of a quantifier anywhere inside t (0 when there is none)"""
    if isinstance(t, tuple):
        return max([_qdepth(x) for x in t], default=0)
    if isinstance(t, Poly):
        return max([_qdepth(a) for m in t.terms for a, e in m], default=0)
    if not isinstance(t, (Bool, Atom)):
        return 0
    r = _qd.get(t)
    if r is None:
        r = _qdepth(t.args) + (1 if isinstance(t, Bool) and t.op in ('forall', 'exists') else 0)
        _qd[t] = r
    return r


def _absorb(s, dual, seen):
    """absorption (a & (a | b) = a, a | (a & b) = a) and redundant real inequalities p <= 0, p + nonnegative <= 0"""
    if len(s) < 2:
        return s
    if any(x.op == dual for x in s):
        s = [x for x in s if not (x.op == dual and any(y in seen for y in x.args))]
    for sg in (True, False):
        if sg:
            ls = [(x, x.args[0]) for x in s if x.op == 'le' and not x.args[0].sortI]
        else:
            ls = [(x, -x.args[0].args[0]) for x in s if x.op == 'not' and x.args[0].op == 'le']
        if 2 <= len(ls) <= 4:
            drop = set()
            for x, p in ls:
                for y, q in ls:
                    if x is not y and y not in drop and nonneg_syntactic(q - p):    # y implies x
                        drop.add(x if dual == 'or' else y)
            s = [x for x in s if x not in drop]
    return s


def conj(*bs):
    s = []
    seen = set()
    for b in bs:
        b = B(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in seen:
                if neg(x) in seen:
                    return FALSE
                seen.add(x)
                s.append(x)
    s = _absorb(s, 'or', seen)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.id)
    return mk_bool('and', tuple(s))


def disj(*bs):
    s = []
    seen = set()
    for b in bs:
        b = B(b)
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in seen:
                if neg(x) in seen:
                    return TRUE
                seen.add(x)
                s.append(x)
    s = _absorb(s, 'and', seen)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.id)
    return mk_bool('or', tuple(s))


def implies(a, b):
    return disj(neg(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return conj(implies(a, b), implies(b, a))


def br(c):
    """Iverson bracket"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return of_atom(mk_atom('br', (c,), 'I'))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    elif c.op == 'le' and c.args[0].sortI and leading_neg(c.args[0]):     # one orientation for a condition and its negation
        c, a, b = neg(c), b, a
    if CTX.decide is not None:
        d = CTX.decide(c)
        if d is True:
            return a
        if d is False:
            return b
    if a.is_const and b.is_const:
        return b + pscale(br(c), a.const - b.const) if a.const != b.const else a
    sort = 'I' if a.sortI and b.sortI else 'R'
    return of_atom(mk_atom('ite', (c, a, b), sort))


def bite(c, a, b):
    if a is TRUE:
        return disj(c, b)
    if a is FALSE:
        return conj(neg(c), b)
    if b is TRUE:
        return disj(neg(c), a)
    if b is FALSE:
        return conj(c, a)
    return disj(conj(c, a), conj(neg(c), b))


# --------------------------------------------------------- substitution
def subst(t, env, cache=None):
    """env: dict var Atom -> Poly.  Works on Poly / Bool / tuples."""
    if cache is None:
        cache = {}
    if isinstance(t, Poly):
        if not (t.fv & env.keys()):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        r = ZERO
        for m, c in t.terms.items():
            q = const(c)
            for a, e in m:
                q = q * ppow(subst_atom(a, env, cache), e)
            r = r + q
        cache[t] = r
        return r
    if isinstance(t, Bool):
        if not (t.fv & env.keys()):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'le':
            r = le0(subst(t.args[0], env, cache))
        elif op == 'eq':
            r = eq0(subst(t.args[0], env, cache))
        elif op == 'not':
            r = neg(subst(t.args[0], env, cache))
        elif op == 'and':
            r = conj(*[subst(x, env, cache) for x in t.args])
        elif op == 'or':
            r = disj(*[subst(x, env, cache) for x in t.args])
        elif op == 'app':
            r = bapp(t.args[0], [subst(x, env, cache) for x in t.args[1:]])
        elif op in ('forall', 'exists'):
            r = mk_bool(op, (t.args[0], tuple(subst(x, env, cache) for x in t.args[1]), subst(t.args[2], env, cache)))
        else:
            raise NotImplementedError(op)
        cache[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, env, cache) for x in t)
    return t


def subst_atom(a, env, cache):
    if a in env:
        return env[a]
    if not (a.fv & env.keys()):
        return of_atom(a)
    r = cache.get(a)
    if r is None:
        r = rebuild_atom(a, [subst(x, env, cache) if isinstance(x, (Poly, Bool)) else x for x in a.args]
                         if a.kind != 'sum' else
                         [a.args[0], tuple(subst(x, env, cache) for x in a.args[1]), subst(a.args[2], env, cache)])
        cache[a] = r
    return r


APP_REWRITE = {}


def rebuild_atom(a, args):
    k = a.kind
    if k == 'app':
        if args[0] in APP_REWRITE:
            return APP_REWRITE[args[0]](args[1:], a.sort)
        return app(args[0], args[1:], a.sort)
    if k == 'sqrt':
        return psqrt(args[0])
    if k == 'pos':
        return ppos(args[0])
    if k == 'br':
        c = args[0]
        return br(c)
    if k == 'ite':
        return ite(*args)
    if k == 'poly':
        return args[0]
    if k == 'sign':
        return psign(args[0])
    if k == 'floor':
        return pfloor(args[0])
    if k == 'fdiv':
        return pfloordiv(args[0], args[1])
    if k == 'sum':
        # reopen and close again so that simplifications can fire
        vs, ns, body = args
        fr = [fresh('I') for _ in vs]
        b = subst(body, {v: f for v, f in zip(vs, fr)})
        for f, n in reversed(list(zip(fr, ns))):
            b = close_sum(f, n, b)
        return b
    if k == 'var':
        return of_atom(a)
    if k in OPAQUE_BINDERS:
        return of_atom(mk_atom(k, tuple(args), a.sort))
    raise NotImplementedError(k)


OPAQUE_BINDERS = set()

_fresh = [0]


def fresh(sort='I', base='?'):
    _fresh[0] += 1
    return var('%s%d' % (base, _fresh[0]), sort)


def the_var(p):
    (m, c), = p.terms.items()
    ((a, e),) = m
    assert a.kind == 'var' and e == 1 and c == 1
    return a


# --------------------------------------------------------------- sums
def expand_for(p, v):
    """rewrite p so that every ite/br atom whose free vars contain v appears as a
    top-level bracket factor"""
    changed = True
    while changed:
        changed = False
        for m in p.terms:
            for a, e in m:
                if a.kind == 'ite' and v in a.fv and e > 0:
                    c, x, y = a.args
                    rep = _split(c, x, y, v)
                    p = subst_one(p, a, rep)
                    changed = True
                    break
                if a.kind == 'ite' and v in a.fv and e < 0:
                    c, x, y = a.args
                    q = ZERO
                    for mm, k in p.terms.items():
                        d = dict(mm)
                        n = d.get(a, 0)
                        if n < 0:
                            del d[a]
                            q = q + pscale(_from_d(d) * _split(c, ppow(pinv(x), -n), ppow(pinv(y), -n), v), k)
                        else:
                            q = q + mk_poly({mm: k})
                    p = q
                    changed = True
                    break
                if a.kind == 'app' and v in a.fv and e > 0:
                    c = _range_cond(a, v)
                    if c is not None:
                        x = subst_ite(a, c, True)
                        y = subst_ite(a, c, False)
                        p = subst_one(p, a, _split(c, x, y, v))
                        changed = True
                        break
            if changed:
                break
    return p


def _split(c, x, y, v):
    if _is_range(c, v):
        return br(c) * x + br(neg(c)) * y
    return y + br(c) * (x - y)


def _is_range(c, v):
    return c.op == 'le' and v in c.fv and c.args[0].sortI and (solve_linear(c.args[0], v) is not None)


def _range_cond(a, v):
    """a condition on the position v (as made by a concatenation) inside the arguments of an application"""
    for q in a.args[1:]:
        if isinstance(q, Poly) and v in q.fv:
            for m in q.terms:
                for b, e in m:
                    if b.kind == 'ite' and _is_range(b.args[0], v):
                        return b.args[0]
    return None


def subst_ite(a, c, val):
    def go(q):
        if not isinstance(q, Poly):
            return q
        r = ZERO
        for m, k in q.terms.items():
            t = ONE
            for b, e in m:
                f = of_atom(b)
                if b.kind == 'ite' and b.args[0] is c:
                    f = b.args[1] if val else b.args[2]
                t = t * (ppow(f, e) if e != 1 else f)
            r = r + pscale(t, k)
        return r
    return rebuild_atom(a, (a.args[0],) + tuple(go(q) for q in a.args[1:]))


def subst_one(p, a, rep):
    r = ZERO
    for m, c in p.terms.items():
        d = dict(m)
        if a in d:
            e = d.pop(a)
            q = pmul(_from_d(d), ppow(rep, e))
        else:
            q = mk_poly({m: 1})
        r = r + pscale(q, c)
    return r


def close_sum(v, n, body):
    """Sum_{v=0}^{n-1} body  (v: Poly holding a fresh int var, n: Poly/int)"""
    n = P(n)
    va = the_var(v)
    if va not in body.fv:
        return body * n
    body = expand_for(body, va)
    r = ZERO
    for m, c in body.terms.items():
        r = r + pscale(_close_mon(va, v, n, m), c)
    return r


def _close_mon(va, v, n, m):
    outer = {}
    inner = {}
    brs = []
    for a, e in m:
        if va not in a.fv:
            outer[a] = e
        elif a.kind == 'br':
            brs.append(a.args[0])
        else:
            inner[a] = e
    out = _from_d(outer) if outer else ONE
    # delta elimination on v
    conds = []
    for b in brs:
        conds.extend(b.args if b.op == 'and' else (b,))
    if conds:
        # disjunctions are split:  [A or B] = [A] + [B] - [A and B]
        for i, cnd in enumerate(conds):
            if cnd.op == 'or' and va in cnd.fv:
                x = cnd.args[0]
                y = disj(*cnd.args[1:])
                rest = conj(*(conds[:i] + conds[i + 1:]))
                base = _from_d(inner) if inner else ONE
                tot = ZERO
                for cc, s in ((x, 1), (y, 1), (conj(x, y), -1)):
                    tot = tot + pscale(close_sum(v, n, base * br(conj(rest, cc))), s)
                return out * tot
            if cnd.op == 'not' and cnd.args[0].op == 'eq' and va in cnd.fv:
                rest = conj(*(conds[:i] + conds[i + 1:]))
                base = _from_d(inner) if inner else ONE
                return out * (close_sum(v, n, base * br(rest)) - close_sum(v, n, base * br(conj(rest, cnd.args[0]))))
        for i, cnd in enumerate(conds):
            if cnd.op == 'eq':
                sol = solve_linear(cnd.args[0], va)
                if sol is not None:
                    rest = conds[:i] + conds[i + 1:]
                    guard = conj(ge(sol, ZERO), lt(sol, n))
                    env = {va: sol}
                    base = _from_d(inner) if inner else ONE
                    bod = subst(base, env)
                    g = conj(guard, *[subst(x, env) for x in rest])
                    if CTX.decide is not None:
                        g = simp_conj(g)
                    return out * bod * br(g)
        if CTX.decide is not None:
            keep = []
            rng = conj(ge(v, ZERO), lt(v, n))
            for cnd in conds:
                d = CTX.decide(cnd, rng)
                if d is True:
                    continue
                if d is False:
                    return ZERO
                keep.append(cnd)
            conds = keep
        free = [c for c in conds if va not in c.fv]
        if free:
            out = out * br(conj(*free))
            conds = [c for c in conds if va in c.fv]
    # a range condition on v that cuts [0, n) at a known place: sum over the part
    if inner and conds and CTX.decide is not None and n.const is None:
        for i, cnd in enumerate(conds):
            if _is_range(cnd, va):
                q = cnd.args[0]
                up = q.terms.get(((va, 1),)) == 1
                cut = solve_linear(q, va)               # v <= cut, or v >= cut
                rest = conds[:i] + conds[i + 1:]
                base = (_from_d(inner) if inner else ONE) * br(conj(*rest))
                if up and CTX.decide(conj(le(const(-1), cut), lt(cut, n))) is True:
                    return out * close_sum(v, cut + 1, base)
                if not up and CTX.decide(conj(le(ZERO, cut), le(cut, n))) is True:
                    return out * close_sum(v, n - cut, subst(base, {va: v + cut}))
    # bounded counting sums with interval conditions and no other factor
    if not inner and conds:
        iv = interval_of(conds, va, n)
        if iv is not None:
            lo, hi = iv
            return out * ppos(hi - lo)
    if not inner and not conds:
        return out * n
    nn = n.const
    if nn is not None and nn <= SUM_UNROLL:
        tot = ZERO
        base = (_from_d(inner) if inner else ONE) * br(conj(*conds))
        for i in range(int(nn)):
            tot = tot + subst(base, {va: const(i)})
        return out * tot
    # open inner sums containing v
    vars_ = [(va, n)]
    facs = {}
    for a, e in inner.items():
        if a.kind == 'sum' and e > 0:
            for _ in range(e):
                fr = [fresh('I') for _ in a.args[0]]
                b = subst(a.args[2], {x: f for x, f in zip(a.args[0], fr)})
                (mm, cc), = b.terms.items()
                assert cc == 1
                # bound ranges may depend on earlier vars: not supported
                for f, x in zip(fr, a.args[1]):
                    vars_.append((the_var(f), x))
                for aa, ee in mm:
                    facs[aa] = facs.get(aa, 0) + ee
        else:
            facs[a] = facs.get(a, 0) + e
    if conds:
        brc = list(conds)
        for a in list(facs):
            if a.kind == 'br':
                brc.append(a.args[0])
                del facs[a]
        cc = conj(*brc)
        if cc is FALSE:
            return ZERO
        facs[the_atom(br(cc))] = 1
    else:
        brc = [a.args[0] for a in facs if a.kind == 'br']
        if len(brc) > 1:
            for a in list(facs):
                if a.kind == 'br':
                    del facs[a]
            facs[the_atom(br(conj(*brc)))] = 1
    p = _from_d(facs)
    if len(p.terms) != 1 or list(p.terms.values())[0] != 1:
        # reductions fired (e.g. sqrt^2): close generically
        tot = p
        for x, nx in vars_:
            tot = close_sum(of_atom(x), nx, tot)
        return out * tot
    (mm, _), = p.terms.items()
    # try delta elimination for opened variables too
    if len(vars_) > 1:
        for a, e in mm:
            if a.kind == 'br':
                cs = a.args[0].args if a.args[0].op == 'and' else (a.args[0],)
                for cnd in cs:
                    if cnd.op == 'eq':
                        for x, nx in vars_[1:]:
                            if x in cnd.fv and solve_linear(cnd.args[0], x) is not None:
                                order = [y for y in vars_ if y[0] is not x]
                                tot = close_sum(of_atom(x), nx, p)
                                for y, ny in order:
                                    tot = close_sum(of_atom(y), ny, tot)
                                return out * tot
    if ORTHO:
        for x, nx in vars_:
            d = _ortho_pair(x, nx, mm)
            if d is not None:
                tot = d
                for y, ny in vars_:
                    if y is not x:
                        tot = close_sum(of_atom(y), ny, tot)
                return out * tot
    return out * canon_sum(vars_, mm)


ORTHO = {}     # arrays with declared orthonormal columns: name -> (axis summed over, its length)


def _ortho_pair(x, n, mm):
    """Sum_x Q[x,a] Q[x,b] = [a = b]"""
    qs, rest = [], {}
    for a, e in mm:
        if x not in a.fv:
            rest[a] = e
            continue
        o = ORTHO.get(a.args[0]) if a.kind == 'app' else None
        if o is None or e not in (1, 2) or o[1] is not n or a.args[1 + o[0]] is not of_atom(x):
            return None
        others = [q for i, q in enumerate(a.args[1:]) if i != o[0]]
        if any(x in q.fv for q in others):
            return None
        qs += [(a.args[0], others)] * e
    if len(qs) != 2 or qs[0][0] != qs[1][0]:
        return None
    return (_from_d(rest) if rest else ONE) * br(conj(*[eq(u, w) for u, w in zip(qs[0][1], qs[1][1])]))


SUM_UNROLL = 32


def the_atom(p):
    (m, c), = p.terms.items()
    ((a, e),) = m
    return a


def simp_conj(g):
    if g is TRUE or g is FALSE:
        return g
    parts = g.args if g.op == 'and' else (g,)
    out = []
    for x in parts:
        d = CTX.decide(x)
        if d is True:
            continue
        if d is False:
            return FALSE
        out.append(x)
    return conj(*out)


def solve_linear(p, va):
    """p = 0 solved for int var va with coefficient +-1; None otherwise"""
    co = None
    rest = {}
    for m, c in p.terms.items():
        has = [a for a, e in m if va in a.fv]
        if not has:
            rest[m] = c
        elif len(m) == 1 and m[0][0] is va and m[0][1] == 1:
            co = c
        else:
            return None
    if co not in (1, -1):
        return None
    r = mk_poly(rest)
    return -r if co == 1 else r


def interval_of(conds, va, n):
    lo, hi = ZERO, n
    for c in conds:
        if c.op != 'le':
            return None
        p = c.args[0]
        co = None
        rest = {}
        for m, k in p.terms.items():
            if not any(va in a.fv for a, e in m):
                rest[m] = k
            elif len(m) == 1 and m[0] == (va, 1):
                co = k
            else:
                return None
        r = mk_poly(rest)
        if co == 1:      # v + r <= 0 : v < 1 - r
            hi = pmin(hi, 1 - r)
        elif co == -1:   # v >= r
            lo = pmax(lo, r)
        else:
            return None
    return lo, hi


def components(vars_, mm):
    vs = [v for v, _ in vars_]
    parent = {v: v for v in vs}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x
    for a, e in mm:
        f = [v for v in vs if v in a.fv]
        for x in f[1:]:
            parent[find(x)] = find(f[0])
    comp = {}
    for v, n in vars_:
        comp.setdefault(find(v), []).append((v, n))
    return list(comp.values())


def canon_sum(vars_, mm):
    """canonical product of connected Sum atoms"""
    res = ONE
    left = dict(mm)
    # split conjunction brackets so that components separate
    for a in list(left):
        if a.kind == 'br' and a.args[0].op == 'and':
            pass
    comps = components(vars_, mm)
    for comp in comps:
        vs = [v for v, _ in comp]
        part = {a: e for a, e in left.items() if any(v in a.fv for v in vs)}
        for a in part:
            del left[a]
        if not part:
            for v, n in comp:
                res = res * n
            continue
        lvl = max([a.lvl for a in part] + [0]) + 1
        best = None
        for perm in permutations(comp):
            names = [mk_atom('var', ('$b%d_%d' % (lvl, i),), 'I') for i in range(len(perm))]
            env = {v: of_atom(nm) for (v, _), nm in zip(perm, names)}
            body = subst(_from_d(part), env)
            ns = tuple(n for _, n in perm)
            key = (tuple(n.id for n in ns), body.id)
            kk = skey(body) + (tuple(skey(n) for n in ns),)
            if best is None or kk < best[0]:
                best = (kk, tuple(names), ns, body)
        _, names, ns, body = best
        sort = 'I' if body.sortI else 'R'
        a = mk_atom('sum', (names, ns, body), sort)
        a.lvl = max(a.lvl, lvl)
        res = res * of_atom(a)
    if left:
        res = res * _from_d(left)
    return res


_skey_cache = {}


def skey(p):
    """structural key (string) used for ordering binder permutations"""
    r = _skey_cache.get(p)
    if r is None:
        r = (show(p),)
        _skey_cache[p] = r
    return r


# --------------------------------------------------------------- printing
def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.terms:
        return '0'
    out = []
    for m, c in sorted(((tuple(sorted((show_atom(a), e) for a, e in m)), c) for m, c in p.terms.items())):
        s = '*'.join(a if e == 1 else '%s^%d' % (a, e) for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]


_sa_cache = {}


def show_atom(a):
    r = _sa_cache.get(a)
    if r is None:
        k = a.kind
        if k == 'var':
            r = a.args[0]
        elif k == 'app':
            r = '%s[%s]' % (a.args[0], ','.join(show(x) for x in a.args[1:]))
        elif k == 'br':
            r = '{%s}' % showb(a.args[0])
        elif k == 'sum':
            r = 'SUM(%s: %s)' % (','.join('%s<%s' % (x.args[0], show(n)) for x, n in zip(a.args[0], a.args[1])), show(a.args[2]))
        elif k == 'ite':
            r = 'ite(%s, %s, %s)' % (showb(a.args[0]), show(a.args[1]), show(a.args[2]))
        else:
            r = '%s(%s)' % (k, ','.join(show(x) if isinstance(x, Poly) else repr(x) for x in a.args))
        _sa_cache[a] = r
    return r


def showb(b):
    if b.op in ('true', 'false'):
        return b.op
    if b.op == 'le':
        return '%s<=0' % show(b.args[0])
    if b.op == 'eq':
        return '%s=0' % show(b.args[0])
    if b.op == 'not':
        return '!(%s)' % showb(b.args[0])
    if b.op == 'and':
        return '(' + ' & '.join(showb(x) for x in b.args) + ')'
    if b.op == 'or':
        return '(' + ' | '.join(showb(x) for x in b.args) + ')'
    if b.op == 'app':
        return '%s[%s]' % (b.args[0], ','.join(show(x) for x in b.args[1:]))
    return '%s(%s)' % (b.op, ', '.join(map(str, b.args)))


# ------------------------------------------------------ numeric evaluation
def evaln(t, env, cache=None):
    """numeric evaluation.  env: name -> number (vars) or callable (apps)."""
    if cache is None:
        cache = {}
    k = id(t)
    if k in cache:
        return cache[k]
    if isinstance(t, Poly):
        r = 0.0 if not t.sortI else 0
        for m, c in t.terms.items():
            q = c if type(c) is int else float(c)
            for a, e in m:
                q = q * evaln(a, env, cache) ** e
            r = r + q
    elif isinstance(t, Atom):
        kd = t.kind
        if kd == 'var':
            nm = t.args[0]
            if nm == '$PI':
                r = math.pi
            elif nm == '$INF':
                r = math.inf
            elif nm in ('$NAN', '$DIV0'):
                r = math.nan
            else:
                r = env[nm]
        elif kd == 'app':
            r = env[t.args[0]](*[evaln(x, env, cache) for x in t.args[1:]])
        elif kd == 'sqrt':
            r = math.sqrt(max(0.0, evaln(t.args[0], env, cache)))
        elif kd == 'pos':
            r = max(evaln(t.args[0], env, cache), 0)
        elif kd == 'br':
            r = 1 if evaln(t.args[0], env, cache) else 0
        elif kd == 'ite':
            r = evaln(t.args[1] if evaln(t.args[0], env, cache) else t.args[2], env, cache)
        elif kd == 'poly':
            r = evaln(t.args[0], env, cache)
        elif kd == 'sign':
            x = evaln(t.args[0], env, cache)
            r = (x > 0) - (x < 0)
        elif kd == 'floor':
            r = math.floor(evaln(t.args[0], env, cache) + 1e-12)
        elif kd == 'fdiv':
            r = math.floor(Fraction(evaln(t.args[0], env, cache)) / Fraction(evaln(t.args[1], env, cache)))
        elif kd == 'sum':
            r = _eval_sum(t, env)
        else:
            raise NotImplementedError(kd)
    elif isinstance(t, Bool):
        op = t.op
        if op == 'true':
            r = True
        elif op == 'false':
            r = False
        elif op == 'le':
            r = evaln(t.args[0], env, cache) <= 0
        elif op == 'eq':
            r = evaln(t.args[0], env, cache) == 0
        elif op == 'not':
            r = not evaln(t.args[0], env, cache)
        elif op == 'and':
            r = all(evaln(x, env, cache) for x in t.args)
        elif op == 'or':
            r = any(evaln(x, env, cache) for x in t.args)
        elif op == 'app':
            r = bool(env[t.args[0]](*[evaln(x, env, cache) for x in t.args[1:]]))
        elif op in ('forall', 'exists'):
            vs, ns, body = t.args
            it = _iter_ranges(vs, ns, env)
            r = (all if op == 'forall' else any)(evaln(body, e2, {}) for e2 in it)
        else:
            raise NotImplementedError(op)
    else:
        r = t
    cache[k] = r
    return r


def _iter_ranges(vs, ns, env):
    if not vs:
        yield env
        return
    n = evaln(ns[0], env, {})
    for i in range(int(round(n))):
        e2 = dict(env)
        e2[vs[0].args[0]] = i
        yield from _iter_ranges(vs[1:], ns[1:], e2)


def _eval_sum(t, env):
    vs, ns, body = t.args
    s = 0
    for e2 in _iter_ranges(vs, ns, env):
        s += evaln(body, e2, {})
    return s


# ----------------------------------------------------------- equality
def clear_denoms(p):
    """multiply p by (assumed nonzero) denominators until none remain at top level"""
    for _ in range(60):
        worst = None
        for m in p.terms:
            for a, e in m:
                if e < 0:
                    worst = (a, -e) if worst is None or (a is worst[0] and -e > worst[1]) else worst
        if worst is None:
            return p
        a, e = worst
        f = a.args[0] if a.kind == 'poly' else of_atom(a)
        # multiply monomial-wise so that a^-e cancels
        r = ZERO
        for m, c in p.terms.items():
            d = dict(m)
            ea = d.pop(a, 0) + e
            q = _from_d(d) if d else ONE
            if ea:
                q = q * ppow(f, ea)
            r = r + pscale(q, c)
        p = r
    return p


def is_zero(p, tol=None):
    if not p.terms:
        return True
    p = clear_denoms(p)
    if not p.terms:
        return True
    return False
