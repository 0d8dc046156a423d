"""Exact normal forms: polynomials with rational coefficients over interned
atoms (negative exponents allowed), and boolean formulas over comparisons."""
from fractions import Fraction

_ids = {}
_atoms = []
MAXTERMS = 4000


def aid(a):
    i = _ids.get(a)
    if i is None:
        i = len(_atoms)
        _ids[a] = i
        _atoms.append(a)
    return i


def atom_of(i):
    return _atoms[i]


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @staticmethod
    def const(c):
        c = c if isinstance(c, Fraction) else Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({((aid(a), 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooBig()
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > MAXTERMS:
            raise TooBig()
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, fac = _mulmono(m1, m2)
                c = c1 * c2
                if fac is None:
                    n = r.get(m, 0) + c
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
                else:
                    p = Poly({m: c}) * fac
                    extra = p if extra is None else extra + p
        out = Poly(r)
        return out if extra is None else out + extra

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def _mulmono(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    fac = None
    for a in list(d):
        at = _atoms[a]
        if type(at) is tuple and at and at[0] == "sqrt" and abs(d[a]) >= 2:
            k = d[a] // 2 if d[a] > 0 else -((-d[a]) // 2)
            d[a] -= 2 * k
            if not d[a]:
                del d[a]
            f = ppow(at[1], k)
            fac = f if fac is None else fac * f
    return tuple(sorted(d.items())), fac


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def C(x):
    return Poly.const(x)


def A(*a):
    return Poly.atom(tuple(a))


def lead(p):
    m = max(p.t, key=lambda m: (sum(abs(e) for a, e in m), m))
    return m, p.t[m]


def pinv(p):
    if not p.t:
        return A("div0")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        # (mono)^-1
        return Poly({tuple((a, -e) for a, e in m): 1 / c})
    # factor the common monomial out
    comm = None
    for m in p.t:
        d = dict(m)
        comm = d if comm is None else {a: min(comm[a], d[a]) if comm[a] > 0 else max(comm[a], d[a])
                                       for a in comm if a in d and comm[a] * d[a] > 0}
    if comm:
        cm = Poly({tuple(sorted((a, -e) for a, e in comm.items())): Fraction(1)})
        q = p * cm
        return pinv(q) * cm
    m, c = lead(p)
    q = p.scale(1 / c)
    return Poly.atom(("inv", q)).scale(1 / c)


def pdiv(a, b):
    if b.is_const() and b.t:
        return a.scale(1 / b.cval())
    if not a.t:
        return ZERO
    if a.t and len(a.t) == len(b.t):
        m, c = lead(b)
        if m in a.t:
            k = a.t[m] / c
            if a == b.scale(k):
                return C(k)
    return a * pinv(b)


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(pinv(p), -n)
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def psqrt(p):
    if p.is_const():
        c = p.cval()
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return C(Fraction(n, d))
    return Poly.atom(("sqrt", p))


def is_zero(p, depth=0):
    """exact zero test, clearing inv() atoms"""
    if not p.t:
        return True
    if depth > 12:
        return False
    for a in p.atoms():
        at = _atoms[a]
        if type(at) is tuple and at and at[0] == "inv":
            mx = max(dict(m).get(a, 0) for m in p.t)
            mn = min(dict(m).get(a, 0) for m in p.t)
            q = at[1]
            out = ZERO
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(a, 0)
                mono = Poly({tuple(sorted(d.items())): c})
                if mx > 0:
                    out = out + mono * ppow(q, mx - e)
                else:
                    out = out + mono * ppow(q, -e)
            return is_zero(out, depth + 1)
    for a in p.atoms():
        at = _atoms[a]
        if type(at) is tuple and at and at[0] == "sqrt":
            es = [dict(m).get(a, 0) for m in p.t]
            lo = min(es + [0])
            if lo == 0 and max(es) < 2:
                continue
            q = at[1]
            out = ZERO
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(a, 0) - lo
                if e % 2:
                    d[a] = 1
                out = out + Poly({tuple(sorted(d.items())): c}) * ppow(q, e // 2)
            return is_zero(out, depth + 1)
    return False


def peq(a, b):
    try:
        return a == b or is_zero(a - b)
    except TooBig:
        return False


def subst(p, f, cache=None):
    """replace atoms: f(atom) -> Poly or None; recurses into structured atoms"""
    if cache is None:
        cache = {}
    out = ZERO
    for m, c in p.t.items():
        term = C(c)
        for a, e in m:
            r = cache.get(a)
            if r is None:
                r = _subatom(_atoms[a], f, cache)
                cache[a] = r
            term = term * ppow(r, e)
        out = out + term
    return out


def _subatom(at, f, cache):
    r = f(at)
    if r is not None:
        return r
    if type(at) is tuple:
        n = sub_any(at, f, cache)
        if n != at:
            if n[0] == "sqrt":
                return psqrt(n[1])
            if n[0] == "inv":
                return pinv(n[1])
            if n[0] == "ite":
                return ite(n[1], n[2], n[3])
            if n[0] == "fn" and len(n) == 3 and isinstance(n[2], Poly):
                if n[1] in ("sin", "tan", "sinh", "tanh", "asin", "atan", "cos", "cosh", "abs"):
                    even = n[1] in ("cos", "cosh", "abs")
                    if not n[2].t:
                        return ONE if n[1] in ("cos", "cosh") else ZERO
                    if n[1] == "abs" and n[2].is_const():
                        return C(abs(n[2].cval()))
                    if lead(n[2])[1] < 0:
                        r = Poly.atom(("fn", n[1], -n[2]))
                        return r if even else -r
            if n[0] == "fn" and len(n) == 3 and type(n[2]) is frozenset:
                v = list(n[2])
                if len(v) == 1:
                    return v[0]
                d = v[0] - v[1]
                if d.is_const():
                    big, small = (v[0], v[1]) if d.cval() > 0 else (v[1], v[0])
                    return big if n[1] == "max" else small
            return Poly.atom(n)
    return Poly.atom(at)


def sub_any(x, f, cache):
    if isinstance(x, Poly):
        return subst(x, f, cache)
    if isinstance(x, F):
        return fsubst(x, f, cache)
    if type(x) is tuple:
        n = tuple(sub_any(y, f, cache) for y in x)
        return n if n != x else x
    if type(x) is frozenset:
        n = frozenset(sub_any(y, f, cache) for y in x)
        return n if n != x else x
    if hasattr(x, "submap"):
        return x.submap(lambda y: sub_any(y, f, cache))
    return x


def contains(x, pred, seen=None):
    """does a term contain an atom (tuple) satisfying pred"""
    if seen is None:
        seen = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if a in seen:
                continue
            seen.add(a)
            at = _atoms[a]
            if pred(at) or contains(at, pred, seen):
                return True
        return False
    if isinstance(x, F):
        return any(contains(y, pred, seen) for y in x.parts())
    if type(x) is tuple:
        if x and pred(x):
            return True
        return any(contains(y, pred, seen) for y in x)
    if hasattr(x, "parts"):
        return any(contains(y, pred, seen) for y in x.parts())
    return False


# ---------------------------------------------------------------- formulas
class F:
    """kinds: T, N(false), gt(p) p>0, ge(p) p>=0 , eq(p), at(term), not, and, or"""
    __slots__ = ("k", "v", "_h")

    def __init__(self, k, v=None):
        self.k, self.v = k, v
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.v))
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and self.k == o.k and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def parts(self):
        if self.k in ("and", "or"):
            return list(self.v)
        if self.v is None:
            return []
        return [self.v]

    def __repr__(self):
        return show(self)


TRUE, FALSE = F("T"), F("N")


def _normp(p):
    """scale so that the leading coefficient is +-1"""
    m, c = lead(p)
    return p.scale(1 / abs(c))


def _root(p):
    """the sign of a multiple of a square root, or 0"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            t = _atoms[m[0][0]]
            if type(t) is tuple and t and t[0] == "sqrt":
                return 1 if c > 0 else -1
    return 0


def f_gt0(p, integer=False):
    if p.is_const():
        return TRUE if p.cval() > 0 else FALSE
    s = _root(p)
    if s:
        return f_not(f_eq0(p)) if s > 0 else FALSE
    if integer:
        return f_ge0(p - ONE, True)
    return F("gt", _normp(p))


def f_ge0(p, integer=False):
    if p.is_const():
        return TRUE if p.cval() >= 0 else FALSE
    s = _root(p)
    if s:
        return TRUE if s > 0 else f_eq0(p)
    if integer:
        # keep integer form un-scaled unless the content allows it
        return F("ge", p)
    return F("ge", _normp(p))


def f_eq0(p):
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    m, c = lead(p)
    return F("eq", p.scale(1 / c))


def f_atom(t):
    return F("at", t)


_nots = {}


def f_not(a):
    if a.k == "T":
        return FALSE
    if a.k == "N":
        return TRUE
    if a.k == "not":
        return a.v
    if a.k in ("and", "or"):
        r = _nots.get(a)
        if r is None:
            r = (f_or if a.k == "and" else f_and)(*[f_not(x) for x in a.v])
            _nots[a] = r
            _nots.setdefault(r, a)
        return r
    if a.k == "gt":
        return F("ge", -a.v)
    if a.k == "ge":
        if _int_poly(a.v):
            return F("ge", -a.v - ONE)
        return F("gt", -a.v)
    return F("not", a)


_intatoms = set()


def mark_int(a):
    _intatoms.add(aid(a))


def _int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a not in _intatoms or e < 0:
                return False
    return True


_nonneg = set()


def mark_nonneg(a):
    _nonneg.add(aid(a))


def canon_nn(x):
    """the formula with comparisons of a single non-negative integer with 0 written as equalities"""
    if x.k in ("and", "or"):
        return (f_and if x.k == "and" else f_or)(*[canon_nn(y) for y in x.v])
    if x.k == "not":
        return f_not(canon_nn(x.v))
    if x.k in ("gt", "ge"):
        ms = [m for m in x.v.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0] in _nonneg:
            a = ms[0][0][0]
            k, c = x.v.t.get((), 0), x.v.t[ms[0]]
            at = Poly({ms[0]: Fraction(1)})
            if c < 0 and (x.k == "ge" and k == 0 or k > 0 and k / -c < 1):
                return f_eq0(at)
            if c > 0 and (x.k == "gt" and k == 0 or k < 0 and (-k / c < 1 or -k / c == 1 and x.k == "ge")):
                return f_not(f_eq0(at))
            if c > 0 and (k > 0 or k == 0 and x.k == "ge"):
                return TRUE
            if c < 0 and (k < 0 or k == 0 and x.k == "gt"):
                return FALSE
    return x


def canon(p):
    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            c = canon_nn(at[1])
            if c != at[1]:
                return ite(c, canon(at[2]), canon(at[3]))
        return None
    return subst(p, f)


def f_and(*xs):
    s = set()
    for x in xs:
        if x.k == "N":
            return FALSE
        if x.k == "T":
            continue
        if x.k == "and":
            s |= x.v
        else:
            s.add(x)
    for x in s:
        if f_not(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    out = set()
    changed = False
    for x in s:
        if x.k == "or":
            if x.v & (s - {x}):
                changed = True
                continue
            rest = frozenset(y for y in x.v if f_not(y) not in s)
            if rest != x.v:
                changed = True
                out.add(f_or(*rest))
                continue
        out.add(x)
    if changed:
        return f_and(*out)
    return F("and", frozenset(s))


def f_or(*xs):
    s = set()
    for x in xs:
        if x.k == "T":
            return TRUE
        if x.k == "N":
            continue
        if x.k == "or":
            s |= x.v
        else:
            s.add(x)
    for x in s:
        if f_not(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    out = set()
    changed = False
    for x in s:
        if x.k == "and":
            if x.v & (s - {x}):
                changed = True
                continue
            rest = frozenset(y for y in x.v if f_not(y) not in s)
            if rest != x.v:
                changed = True
                out.add(f_and(*rest))
                continue
        out.add(x)
    if changed:
        return f_or(*out)
    return F("or", frozenset(s))


def fsubst(x, f, cache):
    if x.k in ("T", "N"):
        return x
    if x.k == "and":
        return f_and(*[fsubst(y, f, cache) for y in x.v])
    if x.k == "or":
        return f_or(*[fsubst(y, f, cache) for y in x.v])
    if x.k == "not":
        return f_not(fsubst(x.v, f, cache))
    if x.k in ("gt", "ge"):
        p = subst(x.v, f, cache)
        if p.is_const() or _root(p):
            return f_gt0(p) if x.k == "gt" else f_ge0(p)
        return F(x.k, _normp(p) if x.k == "gt" or not _int_poly(p) else p)
    if x.k == "eq":
        return f_eq0(subst(x.v, f, cache))
    return F(x.k, sub_any(x.v, f, cache))


def ite(c, a, b):
    if c.k == "T":
        return a
    if c.k == "N":
        return b
    if a == b:
        return a
    if c.k == "not":
        return ite(c.v, b, a)
    # canonical orientation for comparisons
    if c.k in ("gt", "ge"):
        n = f_not(c)
        if _key(n) < _key(c):
            return ite2(n, b, a)
    if c.k == "or":
        return ite2(f_not(c), b, a)
    return ite2(c, a, b)


def ite2(c, a, b):
    a = assume(a, c)
    b = assume(b, f_not(c))
    if a == b:
        return a
    # pull the common part out:  ite(c, x+u, x+v) = x + ite(c,u,v)
    com = {m: k for m, k in a.t.items() if b.t.get(m) == k}
    if com:
        base = Poly(com)
        a2, b2 = a - base, b - base
        return base + Poly.atom(("ite", c, a2, b2))
    return Poly.atom(("ite", c, a, b))


def _key(f):
    return (f.k, repr(f.v)) if f.v is not None else (f.k, "")


def _facts(c):
    out = {c: TRUE, f_not(c): FALSE}
    if c.k == "and":
        for x in c.v:
            out[x] = TRUE
            out[f_not(x)] = FALSE
    return out


def assume(p, c):
    """simplify ite atoms of p knowing the formula c holds"""
    if not any(type(_atoms[a]) is tuple and _atoms[a] and _atoms[a][0] == "ite" for a in p.atoms()):
        return p
    facts = _facts(c)

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            v = feval(at[1], facts)
            if v.k == "T":
                return assume(at[2], c)
            if v.k == "N":
                return assume(at[3], c)
        return None
    return subst(p, f)


def feval(x, facts):
    v = facts.get(x)
    if v is not None:
        return v
    if x.k == "and":
        return f_and(*[feval(y, facts) for y in x.v])
    if x.k == "or":
        return f_or(*[feval(y, facts) for y in x.v])
    if x.k == "not":
        return f_not(feval(x.v, facts))
    # simple implications between comparisons on the same polynomial
    if x.k in ("gt", "ge"):
        for g, val in facts.items():
            if val.k == "T" and g.k in ("gt", "ge"):
                d = x.v - g.v
                if d.is_const():
                    k = d.cval()
                    if k > 0 or (k == 0 and (x.k == "ge" or g.k == "gt")):
                        return TRUE
                d = x.v + g.v
                if d.is_const():
                    k = d.cval()
                    # g: p >(=) 0 ; x: k-p >(=) 0
                    if k < 0 or (k == 0 and (x.k == "gt" or g.k == "gt")):
                        return FALSE
            if val.k == "T" and g.k == "eq":
                d = x.v - g.v
                if d.is_const():
                    return f_gt0(d) if x.k == "gt" else f_ge0(d)
                d = x.v + g.v
                if d.is_const():
                    return f_gt0(d) if x.k == "gt" else f_ge0(d)
    if x.k == "eq":
        for g, val in facts.items():
            if val.k == "T" and g.k == "eq":
                d = x.v - g.v
                if d.is_const():
                    return f_eq0(d)
                d = x.v + g.v
                if d.is_const():
                    return f_eq0(d)
            elif val.k == "T" and g.k in ("gt", "ge"):
                # x = 0 would give g the value k
                d = g.v - x.v
                k = d.cval() if d.is_const() else None
                if k is None:
                    d = g.v + x.v
                    k = d.cval() if d.is_const() else None
                if k is not None and (k < 0 or k == 0 and g.k == "gt"):
                    return FALSE
    return x


# ---------------------------------------------------------------- printing
def show(x, d=0):
    if d > 8:
        return ".."
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda mc: mc[0]):
            s = "*".join((show(_atoms[a], d + 1) + ("^%d" % e if e != 1 else "")) for a, e in m)
            cs = str(c) if c.denominator < 10**6 else repr(float(c))
            if not s:
                out.append(cs)
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(cs + "*" + s)
        return " + ".join(out) if len(out) == 1 or d == 0 else "(" + " + ".join(out) + ")"
    if isinstance(x, F):
        if x.k == "T":
            return "true"
        if x.k == "N":
            return "false"
        if x.k == "gt":
            return "%s > 0" % show(x.v, d + 1)
        if x.k == "ge":
            return "%s >= 0" % show(x.v, d + 1)
        if x.k == "eq":
            return "%s == 0" % show(x.v, d + 1)
        if x.k == "not":
            return "!" + show(x.v, d + 1)
        if x.k == "at":
            return show(x.v, d + 1)
        return "(" + (" && " if x.k == "and" else " || ").join(sorted(show(y, d + 1) for y in x.v)) + ")"
    if type(x) is tuple:
        if len(x) == 2 and x[0] == "v":
            return show(x[1], d + 1)
        if len(x) == 2 and type(x[1]) is int and type(x[0]) is tuple:
            return "%s{%d}" % (show(x[0], d), x[1])
        if x and x[0] == "in":
            return showpath(x[1]) + ("" if len(x) == 2 else "{%s}" % ",".join(str(y) for y in x[2:]))
        return "%s(%s)" % (x[0] if x and type(x[0]) is str else "", ", ".join(show(y, d + 1) for y in (x[1:] if x and type(x[0]) is str else x)))
    return str(x)


def showpath(p):
    if type(p) is not tuple:
        return str(p)
    s = ""
    for i, e in enumerate(p):
        if type(e) is tuple and e and e[0] == ".":
            s += ("." if s else "") + str(e[1])
        elif type(e) is tuple and e and e[0] == "[":
            s += "[%s]" % show(e[1], 3)
        elif type(e) is tuple and e and e[0] in ("T", "V", "P", "G"):
            s += str(e[1])
        elif type(e) is tuple and e and e[0] == "[*":
            s += "[%s .. +%s]" % (show(e[1], 3), show(e[2], 3))
        elif type(e) is tuple and e and e[0] == "D":
            s += "*" + show(e[1], 3)
        else:
            s += str(e)
    return s
