"""Normalising term language of the verifier.

Scalars (reals, integers and 0/1 truth values) are interned polynomials over atoms.  Atoms are array elements,
uninterpreted or elementary functions, sums over symbolic ranges (several binders, one monomial), Iverson brackets,
reciprocal/fractional powers of polynomials and elements of inverse matrices.  Two terms that are equal by ring laws,
by linearity and commutation of finite sums, or by exp/ln/power laws have the same normal form (the same object).
"""
from fractions import Fraction
from itertools import permutations, product
import math

_atoms = {}
_atom_list = []
_polys = {}
NULL_FV = frozenset()


class TermError(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'args', 'fv', 'h', 'isint', 'special', '_dep')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('t', 'id', 'fv', 'h', '_hash')

    # arithmetic ------------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = x
                else:
                    del r[m]
        return _mk(r)
    __radd__ = __add__

    def __neg__(self):
        return _mk({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(P(o), -1))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, -1))

    def __pow__(self, k):
        return power(self, k)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self is o
        if isinstance(o, (int, Fraction)):
            return self is const(o)
        return NotImplemented

    def __repr__(self):
        return show(self)

    @property
    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def cval(self):
        return self.t.get((), 0) if self.isconst else None

    def single_atom(self):
        """The atom if this is exactly 1*atom^1, else None."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atom_list[m[0][0]]
        return None


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mk(t):
    for m, c in t.items():
        if type(c) is Fraction and c.denominator == 1:
            t[m] = c.numerator
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = t
        p.id = len(_polys)
        fv = None
        h = 0
        for m in t:
            for a, _e in m:
                at = _atom_list[a]
                if at.fv:
                    fv = at.fv if fv is None else (fv | at.fv)
                if at.h > h:
                    h = at.h
        p.fv = fv or NULL_FV
        p.h = h
        p._hash = hash(key)
        _polys[key] = p
    return p


ZERO = None
ONE = None


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fraction(c)
    c = _num(c)
    return _mk({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction, bool, float)):
        return const(x)
    raise TermError('not a term: %r' % (x,))


IDEMP = {'iv', 'eq', 'B'}


def atom(kind, *args):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(_atom_list)
        a._dep = None
        a.special = kind in ('iv', 'eq', 'B', 'exp', 'R')
        if kind in ('ix', 'b'):
            a.fv = frozenset((a.id,))
            a.h = 0
            a.isint = True
        else:
            fv = NULL_FV
            h = 0
            for x in args:
                if isinstance(x, Poly):
                    if x.fv:
                        fv = fv | x.fv
                    h = max(h, x.h)
                elif isinstance(x, tuple) and kind in ('inv',):
                    for y in x:
                        if isinstance(y, Poly):
                            fv = fv | y.fv
                            h = max(h, y.h)
            a.isint = kind in ('sz', 'ix', 'b', 'iv', 'eq', 'B')
            if kind == 'S':
                ranges, mono, base = args
                fv = set()
                hh = 0
                for ai, _e in mono:
                    fv |= _atom_list[ai].fv
                    hh = max(hh, _atom_list[ai].h)
                for r in ranges:
                    fv |= r.fv
                    hh = max(hh, r.h)
                own = {atom('b', base + k).id for k in range(len(ranges))}
                fv = frozenset(fv - own)
                h = base + len(ranges)
            if kind == 'inv':
                own = {HOLE[0].id, HOLE[1].id}
                fv = frozenset(fv - own) if (fv & own) else fv
            a.fv = fv
            a.h = h
        _atoms[key] = a
        _atom_list.append(a)
    return a


def ap(a):
    """atom -> poly"""
    return _mk({((a.id, 1),): 1})


HOLE = [None, None]
_ranges = {}
_fresh = [0]


def ix(name, size=None):
    """A generic index variable ranging over [0,size)."""
    a = atom('ix', name)
    if size is not None:
        _ranges[a.id] = P(size)
    return ap(a)


HOLE[0] = atom('ix', '?0')
HOLE[1] = atom('ix', '?1')


def fresh_ix(size, stem='i'):
    _fresh[0] += 1
    return ix('%s%%%d' % (stem, _fresh[0]), size)


def sz(name):
    return ap(atom('sz', name))


def var(name, *idx):
    return ap(atom('v', name, *[P(i) for i in idx]))


def boolvar(name, *idx):
    return ap(atom('B', name, *[P(i) for i in idx]))


# sign knowledge ------------------------------------------------------------------------------------------------
POSITIVE = set()   # names of 'v' atoms / functions known > 0
NONNEG = set()
INTVARS = set()    # names of 'v' atoms that are integers


def atom_nonneg(a):
    k = a.kind
    if k in ('ix', 'b', 'sz', 'iv', 'eq', 'B', 'exp'):
        return True
    if k in ('v', 'fn'):
        return a.args[0] in POSITIVE or a.args[0] in NONNEG
    if k == 'R':
        return poly_nonneg(a.args[0])
    if k == 'S':
        return all(atom_nonneg(_atom_list[x]) or (isinstance(e, int) and e % 2 == 0) for x, e in a.args[1])
    return False


def atom_pos(a):
    if a.kind == 'exp':
        return True
    if a.kind in ('v', 'fn'):
        return a.args[0] in POSITIVE
    if a.kind == 'R':
        return poly_pos(a.args[0])
    if a.kind == 'sz' and a.args[0] in POSITIVE:
        return True
    if a.kind == 'S':
        # non-empty ranges assumed only for ranges declared positive
        return all(poly_pos(r) for r in a.args[0]) and all(atom_pos(_atom_list[x]) for x, e in a.args[1])
    return False


def poly_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if isinstance(e, int) and e % 2 == 0:
                continue
            if not atom_nonneg(_atom_list[a]):
                return False
    return True


def poly_pos(p):
    """Sufficient syntactic test for p > 0."""
    strict = False
    for m, c in p.t.items():
        if c < 0:
            return False
        pos = True
        for a, e in m:
            at = _atom_list[a]
            if atom_pos(at):
                continue
            pos = False
            if isinstance(e, int) and e % 2 == 0:
                continue
            if not atom_nonneg(at):
                return False
        strict = strict or pos
    return strict


def is_int_poly(p):
    for m, c in p.t.items():
        if not isinstance(c, int):
            return False
        for a, e in m:
            at = _atom_list[a]
            if not (at.isint or (at.kind == 'v' and at.args[0] in INTVARS)) or not isinstance(e, int) or e < 0:
                return False
    return True


def int_nonneg(p, depth=0):
    """Sufficient test for an integer term >= 0, using index ranges."""
    if poly_nonneg(p):
        return True
    if depth > 3:
        return False
    for m, c in p.t.items():
        if c < 0 and len(m) == 1 and m[0][1] == 1:
            a = _atom_list[m[0][0]]
            r = _ranges.get(a.id)
            if r is not None:
                q = p - (r - 1 - ap(a)) * (-c)
                if int_nonneg(q, depth + 1):
                    return True
    return False


# multiplication ------------------------------------------------------------------------------------------------
def mono_mul(m1, m2):
    """Product of monomials.  Returns (mono, None) or (None, Poly)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    special = False
    for a, e in m2:
        x = d.get(a)
        if x is None:
            d[a] = e
        else:
            s = x + e
            if s:
                d[a] = _num(s)
            else:
                del d[a]
    for a in d:
        if _atom_list[a].special:
            special = True
            break
    if not special:
        return tuple(sorted(d.items())), None
    return norm_mono(d)


def norm_mono(d):
    """Normalise a monomial given as dict; returns (mono, None) or (None, Poly)."""
    exps = []
    rs = []
    ivs = []
    for a, e in d.items():
        at = _atom_list[a]
        if at.kind == 'exp':
            exps.append((a, e))
        elif at.kind == 'R':
            if e >= 1:
                rs.append((a, e))
        elif at.kind in IDEMP:
            ivs.append(a)
    for a in ivs:
        if d[a] < 0:
            raise TermError('negative power of a truth value')
        d[a] = 1
    if len(ivs) > 1:
        pols = {}
        for a in ivs:
            at = _atom_list[a]
            if at.kind == 'iv':
                pols[at.args[0].id] = at
        for a in ivs:
            at = _atom_list[a]
            if at.kind == 'iv' and (-at.args[0]).id in pols:
                return None, ZERO
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        arg = ZERO
        for a, e in exps:
            arg = arg + _atom_list[a].args[0] * const(e)
            del d[a]
        ex = exp(arg)
        base, pp = norm_mono(d)
        if pp is None:
            pp = _mk({base: 1})
        return None, mul(pp, ex)
    if rs:
        out = ONE
        for a, e in rs:
            k = math.floor(e)
            fr = e - k
            q = _atom_list[a].args[0]
            for _ in range(k):
                out = mul(out, q)
            if fr:
                d[a] = _num(Fraction(fr))
            else:
                del d[a]
        base, pp = norm_mono(d)
        if pp is None:
            pp = _mk({base: 1})
        return None, mul(pp, out)
    return tuple(sorted(d.items())), None


_mulcache = {}


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    k = (p.id, q.id) if p.id <= q.id else (q.id, p.id)
    r = _mulcache.get(k)
    if r is not None:
        return r
    r = {}
    extra = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, pp = mono_mul(m1, m2)
            if pp is None:
                x = r.get(m, 0) + c1 * c2
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
            else:
                pp = scale(pp, c1 * c2)
                extra = pp if extra is None else extra + pp
    res = _mk(r)
    if extra is not None:
        res = res + extra
    _mulcache[k] = res
    return res


def scale(p, c):
    if c == 1:
        return p
    if not c:
        return ZERO
    return _mk({m: _num(x * c) for m, x in p.t.items()})


# powers --------------------------------------------------------------------------------------------------------
def _content(p):
    """Split p = c * mono * q with q canonical (Laurent content removed). mono may contain an exp atom."""
    items = list(p.t.items())
    # atoms present in every monomial
    common = None
    for m, _ in items:
        d = {a: e for a, e in m if _atom_list[a].kind not in IDEMP and _atom_list[a].kind != 'exp'}
        if common is None:
            common = d
        else:
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    # exponent zero here: common exponent is min(e,0)
                    common[a] = min(common[a], 0)
            for a, e in d.items():
                if a not in common:
                    if e < 0:
                        common[a] = e
    common = {a: e for a, e in common.items() if e}
    mono = tuple(sorted(common.items()))
    q = p
    if mono:
        neg = [(a, -e) for a, e in mono]
        q, expanded = ZERO, False
        for m, c in items:
            mm, pp = norm_mono(_madd(m, neg))
            if pp is None:
                pp = _mk({mm: 1})
            else:
                expanded = True
            q = q + scale(pp, c)
        if expanded and q.t:
            # sums in the denominators have been multiplied out; what remains may have content of its own
            k2, mono2, expc2, q2 = _content(q)
            if not q2.t:
                return 1, (), ZERO, ZERO
            m3, p3 = norm_mono(_madd(mono, mono2))
            if p3 is None:
                return k2, m3, expc2, q2
            return k2, mono, expc2, (mul(_mk({mono2: 1}), q2) if mono2 else q2)
    if not q.t:
        return 1, (), ZERO, ZERO
    # exponential content: all monomials carry exp atoms -> normalise so that one chosen one is 1
    ex = []
    for m in q.t:
        e = None
        for a, k in m:
            if _atom_list[a].kind == 'exp':
                e = _atom_list[a].args[0]
        ex.append(e if e is not None else ZERO)
    expc = ZERO
    if any(e.t for e in ex):
        cands = []
        for e in set(ex):
            qq = mul(q, exp(-e)) if e.t else q
            cands.append((exp_key(qq), e, qq))
        cands.sort(key=lambda x: x[0])
        expc, q = cands[0][1], cands[0][2]
    # numeric content
    cs = list(q.t.values())
    g = 0
    l = 1
    for c in cs:
        c = Fraction(c)
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    k = Fraction(g, l)
    q = scale(q, 1 / k) if k != 1 else q
    return _num(k), mono, expc, q


def _madd(m1, m2):
    d = dict(m1)
    for a, e in m2:
        e = d.get(a, 0) + e
        if e:
            d[a] = _num(Fraction(e))
        else:
            d.pop(a, None)
    return d


def exp_key(q):
    """A key that is the same for every representative of an orbit choice (deterministic per set of exponents)."""
    return (sorted((tuple(m), float(c)) for m, c in q.t.items()))


def _lead_sign(q):
    m = max(q.t, key=lambda m: (len(m), m))
    return -1 if q.t[m] < 0 else 1


_powcache = {}


def power(p, r):
    r = _num(Fraction(r)) if not isinstance(r, int) else r
    if r == 0:
        return ONE
    if r == 1:
        return p
    key = (p.id, r)
    z = _powcache.get(key)
    if z is None:
        z = _power(p, r)
        _powcache[key] = z
    return z


def _power(p, r):
    isint = isinstance(r, int)
    if not p.t:
        if r > 0:
            return ZERO
        return ap(atom('fn', 'recip0'))
    if isint and r > 0:
        out = ONE
        for _ in range(r):
            out = mul(out, p)
        return out
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _mono_power(c, m, r)
    # sums in which an Iverson bracket splits cases: leave to R
    k, mono, expc, q = _content(p)
    if not q.t:
        return _power(ZERO, r)
    sgn = _lead_sign(q)
    if isint and sgn < 0:
        q = -q
        k = -k
    if not isint:
        # factors of unknown sign stay under one root with the rest
        loose = {a: e for a, e in mono if not _root_safe(_atom_list[a], e)}
        if loose:
            q = mul(q, _mk({tuple(sorted(loose.items())): 1}))
            mono = tuple((a, e) for a, e in mono if a not in loose)
    out = _mono_power(k, mono, r)
    if expc.t:
        out = mul(out, exp(scale(expc, r)))
    if len(q.t) == 1:
        (m, c), = q.t.items()
        return mul(out, _mono_power(c, m, r))
    return mul(out, _mk({((atom('R', q).id, _num(r)),): 1}))


def _root_safe(at, e):
    return at.kind == 'exp' or at.kind in IDEMP or atom_nonneg(at) or (isinstance(e, int) and e % 2 == 0)


def _mono_power(c, m, r):
    isint = isinstance(r, int)
    out = ONE
    rest = {}
    if isint:
        coef = Fraction(c) ** r
        d = {}
        for a, e in m:
            at = _atom_list[a]
            if at.kind in IDEMP:
                if r < 0:
                    # 1/[c]: treat as opaque
                    q = _mk({((a, 1),): 1})
                    out = mul(out, _mk({((atom('R', q).id, r),): 1}))
                    continue
                d[a] = 1
            else:
                d[a] = _num(Fraction(e) * r)
        mm, pp = norm_mono(d)
        if pp is None:
            pp = _mk({mm: 1})
        return scale(mul(out, pp), _num(coef))
    # fractional power
    cf = Fraction(c)
    coef = 1
    if cf > 0:
        rn = _root(cf, r)
        if rn is not None:
            coef = rn
        else:
            rest_c = cf
            out = mul(out, _mk({((atom('R', const(rest_c)).id, r),): 1}))
        cneg = False
    else:
        cneg = True
    for a, e in m:
        at = _atom_list[a]
        if at.kind == 'exp':
            out = mul(out, exp(scale(at.args[0], _num(Fraction(e) * r))))
        elif at.kind in IDEMP:
            out = mul(out, ap(at))
        elif atom_nonneg(at):
            dd = {a: _num(Fraction(e) * r)}
            mm, pp = norm_mono(dd)
            out = mul(out, pp if pp is not None else _mk({mm: 1}))
        elif isinstance(e, int) and e % 2 == 0:
            # (x^2k)^r = |x|^(2kr)
            ex = Fraction(e) * r
            if ex.denominator == 1:
                b = _mk({((a, 1),): 1})
                ab = absval(b) if ex % 2 else b
                out = mul(out, mul(power(b, int(ex) - 1), ab) if ex % 2 else power(b, int(ex)))
            else:
                rest[a] = e
        else:
            rest[a] = e
    if rest or cneg:
        q = _mk({tuple(sorted(rest.items())): (_num(cf) if cneg else 1)})
        out = mul(out, _mk({((atom('R', q).id, r),): 1}))
    return scale(out, coef)


def _root(c, r):
    r = Fraction(r)
    n, d = r.numerator, r.denominator

    def iroot(x, k):
        y = round(x ** (1.0 / k))
        for z in (y - 1, y, y + 1):
            if z >= 0 and z ** k == x:
                return z
        return None
    a, b = iroot(c.numerator, d), iroot(c.denominator, d)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** n


# elementary functions ------------------------------------------------------------------------------------------
def exp(p):
    p = P(p)
    if not p.t:
        return ONE
    # pull out k*ln(x)
    out = None
    rest = dict(p.t)
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = _atom_list[m[0][0]]
            if a.kind == 'ln':
                f = power(a.args[0], _num(Fraction(c)))
                out = f if out is None else mul(out, f)
                del rest[m]
    if out is not None:
        return mul(out, exp(_mk(rest)))
    return ap(atom('exp', p))


def ln(p):
    p = P(p)
    if p is ONE:
        return ZERO
    if not p.t:
        return ap(atom('fn', 'ln0'))
    out = ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        k, mono, expc, q = Fraction(c), m, ZERO, ONE
    else:
        k, mono, expc, q = _content(p)
        k = Fraction(k)
    rest = {}
    for a, e in mono:
        at = _atom_list[a]
        if at.kind == 'exp':
            out = out + scale(at.args[0], e)
        elif at.kind in IDEMP:
            rest[a] = e
        elif atom_nonneg(at):
            out = out + scale(_lnatom(_mk({((a, 1),): 1})) if at.kind != 'R' else _lnatom(at.args[0]), _num(Fraction(e)))
        else:
            rest[a] = e
    out = out + expc
    if k < 0:
        # sign stays with what is not known positive
        core = _mk({tuple(sorted(rest.items())): -1})
        k = -k
    else:
        core = _mk({tuple(sorted(rest.items())): 1})
    core = mul(core, q)
    if k != 1:
        out = out + scale(ap(atom('ln', const(k.numerator))), 1) if k.numerator != 1 else out
        out = out - ap(atom('ln', const(k.denominator))) if k.denominator != 1 else out
    if core is not ONE:
        if len(core.t) == 1:
            # single remaining monomial: ln(x^-1) = -ln(x) (domain: x>0), ln(-1/x) = -ln(-x)
            (m, c), = core.t.items()
            if len(m) == 1 and (c == 1 or (c == -1 and isinstance(m[0][1], int) and m[0][1] % 2)):
                a, e = m[0]
                if e != 1:
                    base = _mk({((a, 1),): c})
                    return out + scale(ap(atom('ln', base)), _num(Fraction(e)))
            if len(m) > 1 and all(isinstance(e, int) and e < 0 for _, e in m):
                return out - ap(atom('ln', power(core, -1)))
        out = out + _lnatom(core)
    return out


def _lnatom(q):
    return ap(atom('ln', q))


def sqrt(p):
    return power(P(p), Fraction(1, 2))


def fn(name, *args):
    return ap(atom('fn', name, *[P(a) for a in args]))


# truth values --------------------------------------------------------------------------------------------------
def iv_pos(p):
    """[p > 0]"""
    p = P(p)
    if p.isconst:
        return ONE if p.cval > 0 else ZERO
    if is_int_poly(p):
        if int_nonneg(p - 1):
            return ONE
        if int_nonneg(-p):
            return ZERO
        q = 1 - p
        # canonical orientation: positive leading coefficient
        g = 0
        if _lead_sign(p) < 0:
            return ONE - _iv(q)
        return _iv(p)
    if poly_pos(p):
        return ONE
    if poly_nonneg(-p):
        return ZERO
    k, mono, expc, q = _content(p)
    if not q.t:
        return ZERO
    # remove factors known positive
    keep = ONE
    for a, e in mono:
        at = _atom_list[a]
        if atom_pos(at):
            continue
        if isinstance(e, int) and e < 0:
            e = -e
        if isinstance(e, int):
            e = 1 if e % 2 else 2
        keep = mul(keep, _mk({((a, e),): 1}))
    q = mul(q, keep)
    if k < 0:
        q = -q
    return _iv(q)


def _iv(p):
    return ap(atom('iv', p))


def iv_ge(p):
    p = P(p)
    if is_int_poly(p):
        return iv_pos(p + 1)
    return ONE - iv_pos(-p)


def iv_eq(p):
    """[p == 0]"""
    p = P(p)
    if p.isconst:
        return ONE if not p.t else ZERO
    if is_int_poly(p):
        if int_nonneg(p - 1) or int_nonneg(-p - 1):
            return ZERO
        g = 0
        for c in p.t.values():
            g = math.gcd(g, abs(c))
        c0 = p.t.get((), 0)
        gg = 0
        for m, c in p.t.items():
            if m:
                gg = math.gcd(gg, abs(c))
        if gg > 1 and c0 % gg:
            return ZERO
        if g > 1:
            p = scale(p, Fraction(1, g))
        if _lead_sign(p) < 0:
            p = -p
        return ap(atom('eq', p))
    return ONE - iv_pos(p) - iv_pos(-p)


def ite(c, a, b):
    c, a, b = P(c), P(a), P(b)
    if c is ONE:
        return a
    if c is ZERO:
        return b
    return b + mul(c, a - b)


def land(*cs):
    r = ONE
    for c in cs:
        r = mul(r, P(c))
    return r


def lor(a, b):
    a, b = P(a), P(b)
    return a + b - mul(a, b)


def lnot(a):
    return ONE - P(a)


def absval(p):
    p = P(p)
    if poly_nonneg(p):
        return p
    if poly_nonneg(-p):
        return -p
    return mul(p, iv_pos(p) - iv_pos(-p))


def sign(p):
    return iv_pos(p) - iv_pos(-P(p))


# substitution --------------------------------------------------------------------------------------------------
class Subst:
    """Simultaneous substitution of atoms (by id) with polys; ufmap optionally rewrites function atoms."""

    def __init__(self, m, rewrite=None):
        self.m = m
        self.keys = frozenset(m)
        self.cache = {}
        self.rewrite = rewrite

    def touches(self, fv_holder):
        return True

    def poly(self, p):
        r = self.cache.get(p.id)
        if r is not None:
            return r
        out = {}
        extra = None
        for m, c in p.t.items():
            changed = False
            for a, e in m:
                if self.atom(_atom_list[a]) is not None:
                    changed = True
                    break
            if not changed:
                out[m] = out.get(m, 0) + c
                if not out[m]:
                    del out[m]
                continue
            t = const(c)
            keep = []
            for a, e in m:
                x = self.atom(_atom_list[a])
                if x is None:
                    keep.append((a, e))
                else:
                    t = mul(t, power(x, e))
            if keep:
                t = mul(t, _mk({tuple(keep): 1}))
            extra = t if extra is None else extra + t
        r = _mk(out)
        if extra is not None:
            r = r + extra
        self.cache[p.id] = r
        return r

    def atom(self, a):
        """None if unchanged, else a Poly."""
        k = ('a', a.id)
        if k in self.cache:
            return self.cache[k]
        r = self._atom(a)
        self.cache[k] = r
        return r

    def _atom(self, a):
        if a.id in self.m:
            return self.m[a.id]
        if a.kind in ('ix', 'b', 'sz'):
            return None
        if a.kind == 'S':
            ranges, mono, base = a.args
            nr = [self.poly(r) for r in ranges]
            bodychg = any(self.atom(_atom_list[x]) is not None for x, _ in mono)
            if not bodychg and all(x is y for x, y in zip(nr, ranges)):
                return self._rw(a, a.args)
            # open binders with fresh indices and re-sum
            fr = [fresh_ix(r) for r in nr]
            inner = Subst({atom('b', base + k).id: f for k, f in enumerate(fr)})
            body = inner.poly(_mk({mono: 1}))
            body = self.poly(body)
            for f, r in zip(fr, nr):
                body = Sum(f, r, body)
            return body
        if a.kind == 'inv':
            size, blocks, i, j = a.args
            ni, nj = self.poly(i), self.poly(j)
            nb = tuple(self.poly(b) for b in blocks)
            ns = self.poly(size)
            if ni is i and nj is j and ns is size and all(x is y for x, y in zip(nb, blocks)):
                return None
            return inv_atom(ns, nb, ni, nj)
        na = tuple(self.poly(x) if isinstance(x, Poly) else x for x in a.args)
        if all(x is y for x, y in zip(na, a.args)):
            return self._rw(a, na)
        r = self._rw(a, na)
        if r is not None:
            return r
        return rebuild(a.kind, na)

    def _rw(self, a, na):
        if self.rewrite is not None:
            return self.rewrite(a, na)
        return None


def rebuild(kind, na):
    if kind == 'exp':
        return exp(na[0])
    if kind == 'ln':
        return ln(na[0])
    if kind == 'iv':
        return iv_pos(na[0])
    if kind == 'eq':
        return iv_eq(na[0])
    if kind == 'R':
        return na[0]       # exponent applied by caller through power()
    return ap(atom(kind, *na))


def subst(p, m):
    return Subst({(k.single_atom().id if isinstance(k, Poly) else k): P(v) for k, v in m.items()}).poly(P(p))


# sums ----------------------------------------------------------------------------------------------------------
_sumcache = {}


def Sum(i, n, body):
    """sum over index variable i (a fresh ix poly) in [0,n) of body."""
    n = P(n)
    body = P(body)
    a = i.single_atom()
    if n.isconst:
        k = n.cval
        out = ZERO
        for v in range(int(k)):
            out = out + subst(body, {i: const(v)})
        return out
    c0 = n.t.get((), 0)
    if c0 > 0:
        # peel: sum_{i<m+c} f(i) = f(0)+..+f(c-1) + sum_{j<m} f(j+c)
        out = ZERO
        for v in range(int(c0)):
            out = out + subst(body, {i: const(v)})
        j = fresh_ix(n - c0)
        return out + Sum(j, n - c0, subst(body, {i: j + c0}))
    _ranges[a.id] = n
    out = ZERO
    for m, c in body.t.items():
        dep = []
        ind = []
        for x, e in m:
            (dep if a.id in _atom_list[x].fv else ind).append((x, e))
        t = _mk({tuple(ind): c})
        if not dep:
            out = out + mul(t, n)
            continue
        out = out + mul(t, _sum_mono(a, n, tuple(dep)))
    return out


def _sum_mono(a, n, mono):
    # Kronecker elimination
    for x, e in mono:
        at = _atom_list[x]
        if at.kind == 'eq':
            q = at.args[0]
            c = q.t.get(((a.id, 1),))
            if c in (1, -1):
                rest = q - scale(ap(a), c)
                if a.id in rest.fv:
                    continue
                e_ = scale(rest, -c)
                others = tuple(y for y in mono if y[0] != x)
                b = subst(_mk({others: 1}), {ap(a): e_})
                return mul(mul(b, iv_ge(e_)), iv_pos(n - e_))
    # flatten nested sums
    for x, e in mono:
        at = _atom_list[x]
        if at.kind == 'S' and isinstance(e, int) and e >= 1:
            others = tuple(y for y in mono if y[0] != x)
            body = _mk({others: 1})
            binders = [(a, n)]
            for _ in range(e):
                b, bs = open_sum(at)
                body = mul(body, b)
                binders.extend(bs)
            return multi_sum(binders, body)
    return close_sum([(a, n)], mono)


def open_sum(at):
    ranges, mono, base = at.args
    fr = [fresh_ix(r) for r in ranges]
    body = Subst({atom('b', base + k).id: f for k, f in enumerate(fr)}).poly(_mk({mono: 1}))
    return body, [(f.single_atom(), r) for f, r in zip(fr, ranges)]


def multi_sum(binders, body):
    """Sum of body over all binders; body's monomials are split into connected components."""
    out = ZERO
    ids = {b.id: r for b, r in binders}
    for m, c in body.t.items():
        # any nested S depending on a binder -> flatten first; Kronecker -> eliminate
        redo = False
        for x, e in m:
            at = _atom_list[x]
            if at.kind == 'S' and isinstance(e, int) and e >= 1 and (at.fv & ids.keys()):
                others = tuple(y for y in m if y[0] != x)
                b = _mk({others: c})
                bs = list(binders)
                for _ in range(e):
                    bb, nb = open_sum(at)
                    b = mul(b, bb)
                    bs.extend(nb)
                out = out + multi_sum(bs, b)
                redo = True
                break
            if at.kind == 'eq' and (at.fv & ids.keys()):
                hit = None
                for bid in at.fv & ids.keys():
                    q = at.args[0]
                    cc = q.t.get(((bid, 1),))
                    if cc in (1, -1):
                        rest = q - scale(ap(_atom_list[bid]), cc)
                        if bid not in rest.fv:
                            hit = (bid, scale(rest, -cc))
                            break
                if hit:
                    bid, e_ = hit
                    others = tuple(y for y in m if y[0] != x)
                    b = subst(_mk({others: c}), {ap(_atom_list[bid]): e_})
                    n = ids[bid]
                    b = mul(mul(b, iv_ge(e_)), iv_pos(n - e_))
                    out = out + multi_sum([(z, r) for z, r in binders if z.id != bid], b)
                    redo = True
                    break
        if redo:
            continue
        # connected components
        t = const(c)
        comps = []   # list of (set binders, atoms)
        for x, e in m:
            s = _atom_list[x].fv & ids.keys()
            if not s:
                t = mul(t, _mk({((x, e),): 1}))
                continue
            s = set(s)
            at = [(x, e)]
            rest = []
            for (s2, a2) in comps:
                if s2 & s:
                    s |= s2
                    at += a2
                else:
                    rest.append((s2, a2))
            comps = rest + [(s, at)]
        used = set()
        for s, at in comps:
            used |= s
            t = mul(t, close_sum([(_atom_list[b], ids[b]) for b in s], tuple(sorted(at))))
        for b, r in binders:
            if b.id not in used:
                t = mul(t, r)
        out = out + t
    return out


def close_sum(binders, mono):
    """Canonical S atom for a connected monomial."""
    key = (tuple(sorted((b.id, r.id) for b, r in binders)), mono)
    r = _sumcache.get(key)
    if r is not None:
        return r
    base = 0
    for x, e in mono:
        base = max(base, _atom_list[x].h)
    for b, r in binders:
        base = max(base, r.h)
    k = len(binders)
    body = _mk({mono: 1})
    if k == 1:
        nb = Subst({binders[0][0].id: ap(atom('b', base))}).poly(body)
        res = _mkS([binders[0][1]], nb, base)
    else:
        # colour refinement to cut permutations
        col = {}
        for b, r in binders:
            sig = []
            for x, e in mono:
                at = _atom_list[x]
                if b.id in at.fv:
                    sig.append((at.kind, str(at.args[0]) if at.kind in ('v', 'fn') else '', _pos(at, b.id), str(e)))
            col[b.id] = (str(r.id), tuple(sorted(sig)))
        groups = {}
        for b, r in binders:
            groups.setdefault(col[b.id], []).append((b, r))
        order = sorted(groups)
        best = None
        cnt = 0
        for perm in product(*[permutations(groups[g]) for g in order]):
            cnt += 1
            if cnt > 5040:
                break
            seq = [x for g in perm for x in g]
            nb = Subst({b.id: ap(atom('b', base + q)) for q, (b, r) in enumerate(seq)}).poly(body)
            kk = sorted(nb.t.items(), key=lambda z: (z[0], float(z[1])))
            kk = [(m, float(c)) for m, c in kk]
            if best is None or kk < best[0]:
                best = (kk, nb, [r for _, r in seq])
        res = _mkS(best[2], best[1], base)
    _sumcache[key] = res
    return res


def _pos(at, bid):
    if at.kind in ('v', 'fn', 'B'):
        return tuple(i for i, x in enumerate(at.args) if isinstance(x, Poly) and bid in x.fv)
    return ()


def _mkS(ranges, nb, base):
    if len(nb.t) != 1:
        # substitution can split a monomial only if a constructor simplified it; re-sum then
        out = ZERO
        for m, c in nb.t.items():
            fr = [fresh_ix(r) for r in ranges]
            q = Subst({atom('b', base + k).id: f for k, f in enumerate(fr)}).poly(_mk({m: c}))
            if len(q.t) > 1:        # the sign of a comparison is normalised differently for bound indices
                out = out + scale(ap(atom('S', tuple(ranges), m, base)), c)
                continue
            for f, r in zip(fr, ranges):
                q = Sum(f, r, q)
            out = out + q
        return out
    (m, c), = nb.t.items()
    return scale(ap(atom('S', tuple(ranges), m, base)), c)


# inverse matrices ----------------------------------------------------------------------------------------------
def matrix_blocks(size, f):
    """Canonical blocks of a square matrix given its element function; indices split at the constant part."""
    c0 = int(size.t.get((), 0)) if not size.isconst else 0
    h0, h1 = ap(HOLE[0]), ap(HOLE[1])
    inner = size - c0
    _ranges[HOLE[0].id] = inner
    _ranges[HOLE[1].id] = inner
    rows = [const(k) for k in range(c0)] + [h0 + c0]
    cols = [const(k) for k in range(c0)] + [h1 + c0]
    # evaluate with private fresh indices so the holes cannot be captured by an enclosing matrix
    f0, f1 = fresh_ix(inner), fresh_ix(inner)
    out = []
    for r in [const(k) for k in range(c0)] + [f0 + c0]:
        for c in [const(k) for k in range(c0)] + [f1 + c0]:
            out.append(kron(subst(f(r, c), {f0: h0, f1: h1})))
    return tuple(out)


_kroncache = {}


def kron(p):
    """In a monomial with the factor [i-e == 0] write e for i in the other factors."""
    r = _kroncache.get(p.id)
    if r is not None:
        return r
    out = None
    for m, c in p.t.items():
        for x, e in m:
            at = _atom_list[x]
            if at.kind != 'eq' or len(m) == 1:
                continue
            q = at.args[0]
            hit = None
            for mm, cc in q.t.items():
                if len(mm) == 1 and mm[0][1] == 1 and cc in (1, -1) and _atom_list[mm[0][0]].kind == 'ix':
                    if hit is None or mm[0][0] > hit[0]:
                        hit = (mm[0][0], cc)
            if hit is None:
                continue
            others = tuple(y for y in m if y[0] != x)
            if not any(hit[0] in _atom_list[y].fv for y, _ in others):
                continue
            rest = q - scale(ap(_atom_list[hit[0]]), hit[1])
            if hit[0] in rest.fv:
                continue
            o = _mk({others: 1})
            o2 = subst(o, {ap(_atom_list[hit[0]]): scale(rest, -hit[1])})
            out = (ZERO if out is None else out) + scale(mul(o2 - o, ap(at)), c)
    if out is None or out is ZERO:
        r = p
    else:
        r = p + out
    _kroncache[p.id] = r
    return r


_invs = {}


def _same_entry(x, y, diag):
    """equal entries, where the diagonal part of a block may be written in either index"""
    if x is y:
        return True
    h, g = ap(HOLE[0]), ap(HOLE[1])
    q = iv_eq(h - g).single_atom()
    if not diag or q is None:
        return False
    on = {}
    for m, c in (x - y).t.items():
        if (q.id, 1) not in m:
            return False
        on[tuple(f for f in m if f[0] != q.id)] = c
    return subst(_mk(on), {g: h}) is ZERO


def inv_atom(size, blocks, i, j):
    sym = _invs.get((size.id, tuple(b.id for b in blocks)))
    if sym is None:
        k = int(math.isqrt(len(blocks)))
        sw = {ap(HOLE[0]): ap(HOLE[1]), ap(HOLE[1]): ap(HOLE[0])}
        sym = all(_same_entry(subst(blocks[a * k + b], sw), blocks[b * k + a], a == b) for a in range(k) for b in range(k))
        _invs[(size.id, tuple(b.id for b in blocks))] = sym
    if sym and j.id < i.id:
        i, j = j, i     # unordered pair; closing a sum minimises over binder orders, so this stays canonical
    return ap(atom('inv', size, blocks, i, j))


# differentiation -----------------------------------------------------------------------------------------------
class Diff:
    """d/d(var name[idx]) with derivative table for named functions: dtable[name] = lambda args: [partials]."""

    def __init__(self, name, idx, dtable):
        self.name, self.idx, self.dt = name, [P(i) for i in idx], dtable
        self.cache = {}

    def poly(self, p):
        r = self.cache.get(p.id)
        if r is not None:
            return r
        out = ZERO
        for m, c in p.t.items():
            for k, (a, e) in enumerate(m):
                da = self.atom(_atom_list[a])
                if da is ZERO:
                    continue
                rest = _mk({tuple(m[:k] + m[k + 1:]): c})
                base = _atom_list[a]
                bp = base.args[0] if base.kind == 'R' else ap(base)
                f = scale(power(bp, _num(e - 1)), _num(e)) if e != 1 else ONE
                out = out + mul(mul(rest, f), da)
        self.cache[p.id] = out
        return out

    def atom(self, a):
        k = ('a', a.id)
        if k in self.cache:
            return self.cache[k]
        r = self._atom(a)
        self.cache[k] = r
        return r

    def _atom(self, a):
        if a.kind == 'v':
            if a.args[0] == self.name and len(a.args) - 1 == len(self.idx):
                r = ONE
                for x, y in zip(a.args[1:], self.idx):
                    r = mul(r, iv_eq(x - y))
                return r
            return ZERO
        if a.kind in ('ix', 'b', 'sz', 'iv', 'eq', 'B'):
            return ZERO
        if a.kind == 'exp':
            return mul(self.poly(a.args[0]), ap(a))
        if a.kind == 'ln':
            return mul(self.poly(a.args[0]), power(a.args[0], -1))
        if a.kind == 'R':
            return self.poly(a.args[0])
        if a.kind == 'fn':
            args = a.args[1:]
            ds = [self.poly(x) for x in args]
            if all(d is ZERO for d in ds):
                return ZERO
            tab = self.dt[a.args[0]](*args)
            out = ZERO
            for d, t in zip(ds, tab):
                out = out + mul(d, t)
            return out
        if a.kind == 'S':
            body, bs = open_sum(a)
            return multi_sum_b(bs, self.poly(body))
        if a.kind == 'inv':
            if self.depends(a):
                raise TermError('derivative of an inverse matrix')
            return ZERO
        raise TermError('diff %s' % a.kind)

    def depends(self, a):
        return self.name in vars_of_atom(a)


def multi_sum_b(bs, body):
    for b, r in bs:
        body = Sum(ap(b), r, body)
    return body


_vars = {}


def vars_of_atom(a):
    r = _vars.get(a.id)
    if r is None:
        s = set()
        if a.kind in ('v', 'fn', 'B', 'sz'):
            s.add(a.args[0])
        for x in a.args:
            if isinstance(x, Poly):
                s |= vars_of(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly):
                        s |= vars_of(y)
        if a.kind == 'S':
            for x, e in a.args[1]:
                s |= vars_of_atom(_atom_list[x])
        r = frozenset(s)
        _vars[a.id] = r
    return r


def vars_of(p):
    s = set()
    for m in p.t:
        for x, e in m:
            s |= vars_of_atom(_atom_list[x])
    return s


def atoms_of(p, acc=None, deep=True):
    if acc is None:
        acc = {}
    for m in p.t:
        for x, e in m:
            a = _atom_list[x]
            if a.id in acc:
                continue
            acc[a.id] = a
            if deep:
                for y in a.args:
                    if isinstance(y, Poly):
                        atoms_of(y, acc)
                    elif isinstance(y, tuple) and a.kind == 'inv':
                        for z in y:
                            atoms_of(z, acc)
                if a.kind == 'S':
                    atoms_of(_mk({a.args[1]: 1}), acc)
    return acc


# printing ------------------------------------------------------------------------------------------------------
def show_atom(a):
    k = a.kind
    if k in ('ix', 'sz'):
        return a.args[0]
    if k == 'b':
        return '_%d' % a.args[0]
    if k in ('v', 'B'):
        return a.args[0] + ('[%s]' % ','.join(show(x) for x in a.args[1:]) if len(a.args) > 1 else '')
    if k == 'fn':
        return '%s(%s)' % (a.args[0], ','.join(show(x) for x in a.args[1:]))
    if k in ('exp', 'ln'):
        return '%s(%s)' % (k, show(a.args[0]))
    if k == 'R':
        return '(%s)' % show(a.args[0])
    if k == 'iv':
        return '[%s>0]' % show(a.args[0])
    if k == 'eq':
        return '[%s==0]' % show(a.args[0])
    if k == 'S':
        return 'Sum{%s}(%s)' % (','.join('_%d<%s' % (a.args[2] + i, show(r)) for i, r in enumerate(a.args[0])), show(_mk({a.args[1]: 1})))
    if k == 'inv':
        return 'Inv#%d[%s,%s]' % (hash(tuple(b.id for b in a.args[1])) % 997, show(a.args[2]), show(a.args[3]))
    return k


def show(p, lim=40):
    if not p.t:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda z: (len(z[0]), z[0]))):
        if n > lim:
            out.append('...')
            break
        fs = [show_atom(_atom_list[a]) + ('' if e == 1 else '^%s' % e) for a, e in m]
        s = '*'.join(fs)
        if not fs:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


# numeric evaluation --------------------------------------------------------------------------------------------
class EvalError(Exception):
    pass


class _Float:
    mp = False
    exp, log, sin = staticmethod(math.exp), staticmethod(math.log), staticmethod(math.sin)
    num = staticmethod(float)
    exact, vague = 1e-9, 1e-7


class _MP:
    """60-digit arithmetic, to confirm what floating point suggests"""
    mp = True
    exact, vague = 1e-12, 1e-9

    def __init__(self):
        import mpmath
        mpmath.mp.dps = 60
        self.exp, self.log, self.sin = mpmath.exp, mpmath.log, mpmath.sin
        self.mpf = mpmath.mpf

    def num(self, c):
        if isinstance(c, Fraction):
            return self.mpf(c.numerator) / c.denominator
        return self.mpf(c)


NUM = _Float()


def precise(on):
    global NUM
    NUM = _MP() if on else _Float()


class Env:
    """Concrete valuation: sizes, array elements (lazily drawn), functions, truth variables."""

    def __init__(self, rng, sizes=None, funcs=None, draw=None, ixvals=None, bools=None):
        self.rng = rng
        self.sizes = dict(sizes or {})
        self.funcs = funcs or {}
        self.draw = draw
        self.vals = {}
        self.ix = dict(ixvals or {})
        self.bools = dict(bools or {})
        self.memo = {}

    def var(self, name, idx):
        k = (name,) + idx
        if k not in self.vals:
            self.vals[k] = self.draw(name, idx) if self.draw else self.rng.uniform(-2, 2)
        return self.vals[k]


def evalp(p, env, bind=None):
    bind = bind or {}
    if not p.fv or not bind:
        k = ('p', p.id, tuple(sorted(bind.items())) if p.fv else ())
        if k in env.memo:
            return env.memo[k]
    else:
        k = ('p', p.id, tuple(sorted((b, v) for b, v in bind.items() if b in p.fv)))
        if k in env.memo:
            return env.memo[k]
    tot = 0.0
    for m, c in p.t.items():
        v = NUM.num(c)
        for a, e in m:
            x = evala(_atom_list[a], env, bind)
            if e == 1:
                v *= x
            else:
                if x == 0 and e < 0:
                    raise EvalError('division by zero')
                if x < 0 and not isinstance(e, int):
                    raise EvalError('root of negative')
                v *= x ** (e if isinstance(e, int) else NUM.num(e))
            if v == 0.0:
                # Iverson guards make the remaining factors irrelevant
                break
        tot += v
    if tot != tot or tot in (float('inf'), float('-inf')):
        raise EvalError('non-finite')
    env.memo[k] = tot
    return tot


def evala(a, env, bind):
    k = a.kind
    if a.id in bind:
        return bind[a.id]
    if k == 'ix':
        if a.args[0] not in env.ix:
            r = _ranges.get(a.id)
            n = int(round(evalp(r, env, bind))) if r is not None else 3
            if n <= 0:
                raise EvalError('empty range')
            env.ix[a.args[0]] = env.rng.randrange(n)
        return env.ix[a.args[0]]
    if k == 'sz':
        if a.args[0] not in env.sizes:
            env.sizes[a.args[0]] = env.rng.randrange(1, 4)
        return env.sizes[a.args[0]]
    if k == 'v':
        idx = tuple(int(round(evalp(x, env, bind))) for x in a.args[1:])
        return env.var(a.args[0], idx)
    if k == 'B':
        idx = tuple(int(round(evalp(x, env, bind))) for x in a.args[1:])
        kk = (a.args[0],) + idx
        if kk not in env.bools:
            env.bools[kk] = env.rng.randrange(2)
        return env.bools[kk]
    if k == 'fn':
        args = [evalp(x, env, bind) for x in a.args[1:]]
        f = env.funcs.get(a.args[0])
        if f is None:
            # a fixed pseudo-random smooth function per name
            return _generic_fn(a.args[0], args)
        return f(*args)
    if k == 'exp':
        x = evalp(a.args[0], env, bind)
        if x > 600:
            raise EvalError('overflow')
        return NUM.exp(x)
    if k == 'ln':
        x = evalp(a.args[0], env, bind)
        if x <= 0:
            raise EvalError('ln domain')
        return NUM.log(x)
    if k == 'R':
        return evalp(a.args[0], env, bind)
    if k == 'iv':
        x = evalp(a.args[0], env, bind)
        if x != 0 and abs(x) < NUM.vague:
            raise EvalError('too close to a threshold')
        return 1.0 if x > 0 else 0.0
    if k == 'eq':
        x = abs(evalp(a.args[0], env, bind))
        if NUM.exact <= x < NUM.vague:
            raise EvalError('too close to a threshold')
        return 1.0 if x < NUM.exact else 0.0
    if k == 'S':
        ranges, mono, base = a.args
        ids = [atom('b', base + q).id for q in range(len(ranges))]
        body = _mk({mono: 1})
        ns = [int(round(evalp(r, env, bind))) for r in ranges]
        tot = 0.0
        nb = dict(bind)
        for vals in product(*[range(n) for n in ns]):
            for i, v in zip(ids, vals):
                nb[i] = v
            tot += evalp(body, env, nb)
        return tot
    if k == 'inv':
        import numpy as np
        if NUM.mp:
            return _inv_mp(a, env, bind)
        size, blocks, i, j = a.args
        n = int(round(evalp(size, env, bind)))
        kb = math.isqrt(len(blocks))
        c0 = kb - 1
        A = np.zeros((n, n))
        for r in range(n):
            for c in range(n):
                bi = min(r, c0)
                bj = min(c, c0)
                nb = dict(bind)
                nb[HOLE[0].id] = r - c0
                nb[HOLE[1].id] = c - c0
                A[r, c] = evalp(blocks[bi * kb + bj], env, nb)
        key = ('inv', a.args[0].id, tuple(b.id for b in blocks), A.tobytes())
        if key not in env.memo:
            try:
                if n and np.linalg.cond(A) > 1e8:
                    raise EvalError('singular')
                env.memo[key] = np.linalg.inv(A)
            except np.linalg.LinAlgError:
                raise EvalError('singular')
        return float(env.memo[key][int(round(evalp(i, env, bind))), int(round(evalp(j, env, bind)))])
    raise EvalError(k)


def _inv_mp(a, env, bind):
    import mpmath
    size, blocks, i, j = a.args
    n = int(round(evalp(size, env, bind)))
    c0 = math.isqrt(len(blocks)) - 1
    A = mpmath.zeros(n, n)
    for r in range(n):
        for c in range(n):
            nb = dict(bind)
            nb[HOLE[0].id] = r - c0
            nb[HOLE[1].id] = c - c0
            A[r, c] = evalp(blocks[min(r, c0) * (c0 + 1) + min(c, c0)], env, nb)
    key = ('inv', a.args[0].id, tuple(b.id for b in blocks), str(A))
    if key not in env.memo:
        try:
            env.memo[key] = A ** -1
        except ZeroDivisionError:
            raise EvalError('singular')
    return env.memo[key][int(round(evalp(i, env, bind))), int(round(evalp(j, env, bind)))]


def _generic_fn(name, args):
    import zlib
    h = zlib.crc32(name.encode())
    s = 0.37 + (h % 1000) / 997.0
    v = 0.3
    for i, x in enumerate(args):
        w = 0.5 + ((h >> (3 * i + 5)) % 97) / 100.0
        v += w * NUM.sin(s + (i + 1) * 0.7 * x) + 0.25 * w * x
    if name in POSITIVE:
        return NUM.exp(0.3 * v)
    return v
