"""Abstract interpreter over the extracted syntax trees.

Forward dataflow in a value-graph domain: scalars are polynomial normal forms
over symbolic inputs, Eigen fixed-size matrices are component-wise, memory is a
map from access paths to values.  Branches are joined (gated values, no path is
enumerated); loops with constant trip count are unrolled, any other loop is
summarised once (induction variables, accumulators, element-wise array
definitions), everything else becomes an opaque term.  Calls into the repository
are inlined, other calls are uninterpreted.
"""
import re
import time
from fractions import Fraction
from poly import *
from poly import _atoms
import model
from model import strip

# ------------------------------------------------------------------ values


class V:
    __slots__ = ("v", "_h")
    tag = "V"

    def __init__(self, *v):
        self.v = v
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.v))
        return self._h

    def __eq__(self, o):
        return type(self) is type(o) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def parts(self):
        return [self.v]

    def submap(self, f):
        return type(self)(*[f(x) for x in self.v])

    def __repr__(self):
        return "%s%s" % (self.tag, tuple(show(x) if isinstance(x, (Poly, F, tuple)) else x for x in self.v))


class Mat(V):
    """r, c, values (row major)"""
    tag = "Mat"
    __slots__ = ()
    r = property(lambda s: s.v[0])
    c = property(lambda s: s.v[1])
    e = property(lambda s: s.v[2])

    def at(self, i, j=0):
        return self.e[i * self.c + j]


class Quat(V):
    """(x, y, z, w)"""
    tag = "Quat"
    __slots__ = ()
    e = property(lambda s: s.v[0])


class Str(V):
    tag = "Str"
    __slots__ = ()


class Ptr(V):
    tag = "Ptr"      # path
    __slots__ = ()


class Null(V):
    tag = "Null"
    __slots__ = ()


class PtrT(V):
    tag = "PtrT"     # unknown pointer: term
    __slots__ = ()


class Agg(V):
    tag = "Agg"      # base term, tuple of (relpath, value) in write order
    __slots__ = ()


class Op(V):
    tag = "Op"       # opaque term
    __slots__ = ()


class Clo(V):
    tag = "Clo"
    __slots__ = ()

    def submap(self, f):
        return self

    def parts(self):
        return []

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Place:
    __slots__ = ("path", "sel", "shape", "ty")

    def __init__(self, path, ty=None, sel=None, shape=None):
        self.path, self.ty, self.sel, self.shape = path, ty, sel, shape


class IteV(V):
    tag = "Ite"      # cond, a, b for non scalar values
    __slots__ = ()


NULL = Null()
UNDEF = Op(("undef",))

# ------------------------------------------------------------------ types
_tc = {}


def tinfo(t):
    r = _tc.get(t)
    if r is None:
        r = _tinfo(t)
        _tc[t] = r
    return r


def tup_keys(t, n):
    if "std::pair<" in t[:16]:
        return ("first", "second")
    return tuple("#%d" % i for i in range(n))


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


SCAL = {"int": "int", "unsigned int": "int", "long": "int", "unsigned long": "int", "short": "int",
        "unsigned short": "int", "char": "int", "signed char": "int", "unsigned char": "int",
        "long long": "int", "unsigned long long": "int", "double": "flt", "float": "flt",
        "long double": "flt", "bool": "bool"}


def _tinfo(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r"^(const|volatile)\s+", "", t)
        t = re.sub(r"\s+(const|volatile)$", "", t)
        t = re.sub(r"\s*&&?$", "", t)
        t = re.sub(r"(\*)\s*(const|__restrict|volatile)$", r"\1", t)
        if t == o:
            break
    if t in SCAL:
        return (SCAL[t],) if not t.startswith("unsigned") else (SCAL[t], "u")
    if t == "void":
        return ("void",)
    m = re.match(r"^(.*)\(\*\)((?:\[\d+\])+)$", t)
    if m:
        return ("ptr", m.group(1).strip() + m.group(2))
    m = re.match(r"^(.*)\[(\d*)\]$", t)
    if m:
        # first dimension is the leftmost bracket
        m2 = re.match(r"^(.*?)((?:\[\d*\])+)$", t)
        dims = re.findall(r"\[(\d*)\]", m2.group(2))
        el = m2.group(1).strip() + "".join("[%s]" % d for d in dims[1:])
        return ("arr", el, int(dims[0]) if dims[0] else None)
    if t.endswith("*"):
        return ("ptr", t[:-1].strip())
    m = re.match(r"^(.*)\(\*\)((?:\[\d+\])+)$", t)
    if m:
        return ("ptr", m.group(1).strip() + m.group(2))
    m = re.match(r"^Eigen::Matrix<(.*)>$", t)
    if m:
        a = split_targs(m.group(1))
        try:
            r, c = int(a[1]), int(a[2])
            if r > 0 and c > 0 and a[0] in ("double", "float"):
                return ("mat", r, c)
            if r > 0 and c > 0 and a[0] in SCAL:
                return ("mat", r, c)
        except (ValueError, IndexError):
            pass
        return ("cls", t)
    if t.startswith("Eigen::Quaternion<"):
        return ("quat",)
    m = re.match(r"^std::(shared_ptr|unique_ptr|__shared_ptr)<(.*)>$", t)
    if m:
        return ("ptr", split_targs(m.group(2))[0])
    if t.startswith("vtkSmartPointer<"):
        return ("ptr", t[16:-1])
    m = re.match(r"^std::(vector|deque|list)<(.*)>$", t)
    if m:
        return ("vec", split_targs(m.group(2))[0])
    m = re.match(r"^std::array<(.*)>$", t)
    if m:
        a = split_targs(m.group(1))
        return ("arr", a[0], int(a[1].rstrip("UL")))
    if t.startswith("std::basic_string<"):
        return ("str",)
    P = model._P
    if P is not None and t in enum_names():
        return ("int",)
    return ("cls", t)


_en = None


def enum_names():
    global _en
    if _en is None:
        _en = {k[0] for k in model._P.enums}
    return _en


# ------------------------------------------------------------------ engine
# stores through places the analysis could not name: nothing definite can be said after one
LOST = []


def lvalue(e):
    """is the expression something that can be stored through?"""
    return e["k"] not in ("tmp", "ctor", "num", "str", "lambda", "new", "icast", "ilist", "bool")


class Frame:
    def __init__(self, fn, this=None, parent=None, depth=0):
        self.fn = fn
        self.this = this
        self.vars = {}
        self.parent = parent
        self.depth = depth
        self.exits = []
        self.loops = []
        self.retref = False

    def look(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None


def gk(path):
    """group of the store a path belongs to: a member of a root, or the root with its elements"""
    return path[:2] if len(path) > 1 and path[1][0] == "." else path[:1]


class State:
    __slots__ = ("mem", "pc", "ev", "loopw", "facts")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.ev = []
        self.loopw = ()
        self.facts = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)     # copy-on-write groups
        s.pc = self.pc
        s.ev = list(self.ev)
        s.loopw = self.loopw
        s.facts = self.facts
        return s

    def assume(self, c):
        if c.k == "T":
            return
        self.pc = self.pc + (c,)
        f = dict(self.facts)
        for x in ([c] + (list(c.v) if c.k == "and" else [])):
            f[x] = TRUE
            f[f_not(x)] = FALSE
        self.facts = f


class Limit(Exception):
    pass


def head(p):
    return p[:2]


ALGOS = ("for_each", "copy", "copy_n", "transform", "fill", "fill_n", "accumulate")


class Interp:
    def __init__(self, P, opaque=None, hooks=None, inline=None, max_depth=14, max_unroll=40, budget=400000):
        self.P = P
        self.opaque = opaque or (lambda qn, f: False)
        self.hooks = hooks or {}
        self.inline = inline
        self.max_depth = max_depth
        self.max_unroll = max_unroll
        self.n = 0
        self.types = {}
        self.loopdepth = 0
        self.loopno = 0
        self.bounds = {}      # ('it',d) atom id -> trip count Poly
        self.stack = []
        self.dyn = {}         # path -> dynamic class name
        self.budget = budget
        self.deadline = None
        self.throws = []      # (state pc, type, fn, node)
        self.unknown = []
        self.nodes = 0
        self.fns = set()
        self.on_read = None
        self.on_index = None
        self.static_init = {}

    # ---------------- symbols
    def fresh(self, what):
        self.n += 1
        return ("fresh", what, self.n)

    def sym(self, term, ty):
        """symbolic value of type ty (canonical type string or tinfo) named term"""
        k = tinfo(ty) if type(ty) is str else ty
        if k[0] == "int":
            a = ("v", term)
            mark_int(a)
            if len(k) > 1 or self.is_unsigned(term):
                mark_nonneg(a)
            return Poly.atom(a)
        if k[0] == "flt":
            return Poly.atom(("v", term))
        if k[0] == "bool":
            return f_atom(("b", term))
        if k[0] == "mat":
            return Mat(k[1], k[2], tuple(Poly.atom(("v", (term, i))) for i in range(k[1] * k[2])))
        if k[0] == "quat":
            return Quat(tuple(Poly.atom(("v", (term, q))) for q in "xyzw"))
        if k[0] == "ptr":
            return PtrT(term)
        if k[0] in ("vec", "cls", "arr"):
            return Agg(term, ())
        return Op(term)

    def isz(self, ty):
        return tinfo(ty)[0]

    # ---------------- memory
    def _match(self, key, path, subs):
        """relation of stored key prefix to path: 'yes','no','maybe' over the common length"""
        res = "yes"
        for a, b in zip(key, path):
            if a == b:
                continue
            if subs and type(a) is tuple and a[0] in ("[", "[*") and contains(a, lambda t: t[0] == "ci"):
                a = (a[0],) + tuple(self.subst_ci(x, subs) for x in a[1:])
                if a == b:
                    continue
            if type(a) is tuple and type(b) is tuple and a[0][:1] == "[" and b[0][:1] == "[":
                if a[0] == "[" and b[0] == "[":
                    d = a[1] - b[1]
                    if d.is_const():
                        if d.cval() != 0:
                            return "no"
                        continue
                    if self.prove_nz(d):
                        return "no"
                    res = "maybe"
                elif a[0] == "[*" and b[0] == "[":
                    lo, n = a[1], a[2]
                    off = b[1] - lo
                    if self.prove_ge0(off) and self.prove_ge0(n - ONE - off):
                        subs.append(off)
                    elif self.prove_ge0(-off - ONE) or self.prove_ge0(off - n):
                        return "no"
                    else:
                        res = "maybe"
                else:
                    res = "maybe"
            else:
                return "no"
        return res

    def bnd(self, p):
        """(lower, upper) polys obtained by replacing loop iteration atoms by their extreme values"""
        lo, hi = p, p
        for _ in range(6):
            done = True
            for a in list(lo.atoms()):
                n = self.bounds.get(a)
                if n is not None:
                    lo = self._lin(lo, a, ZERO, n - ONE)
                    done = False
                    break
            if done:
                break
        for _ in range(6):
            done = True
            for a in list(hi.atoms()):
                n = self.bounds.get(a)
                if n is not None:
                    hi = self._lin(hi, a, n - ONE, ZERO)
                    done = False
                    break
            if done:
                break
        return lo, hi

    def _lin(self, p, a, vpos, vneg):
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            if a in d:
                if d[a] != 1 or len(d) != 1:
                    return A("nonlin")
                out = out + (vpos if c > 0 else vneg).scale(c)
            else:
                out = out + Poly({m: c})
        return out

    def nonneg_atom(self, a):
        at = _atoms[a]
        if a in self.bounds:
            return True
        return type(at) is tuple and at and at[0] == "v" and self.is_unsigned(at[1])

    def is_unsigned(self, term):
        return type(term) is tuple and term and term[0] == "in" and term[1][-1:] == ((".", "#size"),)

    def prove_ge0(self, p):
        if p.is_const():
            return p.cval() >= 0
        lo, _ = self.bnd(p)
        if lo.is_const():
            return lo.cval() >= 0
        # all non-constant monomials are products of non-negative atoms
        if lo.t.get((), 0) >= 0:
            for m, c in lo.t.items():
                if not m:
                    continue
                if c < 0 or not all(e > 0 and self.nonneg_atom(a) for a, e in m):
                    break
            else:
                return True
        f = f_ge0(p, True)
        st = getattr(self, "cur", None)
        if st is not None and st.facts:
            if feval(f, st.facts).k == "T":
                return True
            f2 = f_ge0(lo, True)
            if feval(f2, st.facts).k == "T":
                return True
        return False

    def prove_nz(self, d):
        return self.prove_ge0(d - ONE) or self.prove_ge0(-d - ONE)

    def group(self, st, path):
        return st.mem.get(gk(path))

    def read(self, st, path, ty):
        k = tinfo(ty) if type(ty) is str else ty
        self.types.setdefault(path, ty)
        if len(path) == 1:
            # whole-object read: gather all groups of this root
            items = []
            root = path[0]
            base = None
            for h, g in st.mem.items():
                if h[0] == root:
                    for key, v in g:
                        items.append((key, v))
            return self.lookup(items, path, k, ("in", path))
        items = []
        g0 = st.mem.get(path[:1])
        if g0:
            items.extend(g0)
        g = st.mem.get(path[:2]) if path[1][0] == "." else None
        if g:
            items.extend(g)
        if st.loopw:
            for b, okidx, pre in st.loopw:
                if path[:len(b)] == b and len(path) > len(b):
                    if okidx is not None and path[len(b)] == ("[", okidx):
                        continue
                    if path[-1] == (".", "#size"):
                        continue
                    # inside a loop that writes this array: earlier contents unknown
                    # unless written in this iteration
                    items2 = [x for x in items if pre.get(x[0]) is not x[1] and (x[0] not in pre or pre[x[0]] != x[1])]
                    return self.lookup(items2, path, k, ("mu", b, path[len(b):]), nobase=True)
        return self.lookup(items, path, k, ("in", path))

    def _maybe(self, key, path):
        """condition under which key matches path, and the comprehension indices, when a single
        component leaves it open; else None"""
        cond, subs = None, []
        for a, b in zip(key, path):
            if a == b:
                continue
            if type(a) is tuple and type(b) is tuple and a[0][:1] == "[" and b[0] == "[":
                if len(a) < (3 if a[0] == "[*" else 2) or len(b) < 2:
                    return None
                if contains(a, lambda t: t[0] == "ci"):
                    a = (a[0],) + tuple(self.subst_ci(x, subs) for x in a[1:])
                if a[0] == "[":
                    if a[1] == b[1]:
                        continue
                    c = f_eq0(a[1] - b[1])
                else:
                    off = b[1] - a[1]
                    subs.append(off)
                    lo, hi = self.prove_ge0(off), self.prove_ge0(a[2] - ONE - off)
                    if lo and hi:
                        continue
                    cs = ([] if lo else [f_ge0(off, True)]) + ([] if hi else [f_ge0(a[2] - ONE - off, True)])
                    c = f_and(*cs)
                if cond is not None:
                    return None
                cond = c
            else:
                return None
        return None if cond is None else (cond, subs)

    def lookup(self, items, path, k, init, nobase=False, depth=0):
        over = []
        for pos in range(len(items) - 1, -1, -1):
            key, v = items[pos]
            subs = []
            n = min(len(key), len(path))
            r = self._match(key, path, subs)
            if r == "no":
                continue
            if r == "maybe":
                m = self._maybe(key, path) if len(key) <= len(path) and not over and depth < 4 else None
                if m is None:
                    return self.sym(("sel", self._brief(items, path), path), k)
                if m[1]:
                    v = self.subst_ci(v, m[1], True)
                return self.join_val(m[0], self.project(v, path[n:], k),
                                     self.lookup(items[:pos], path, k, init, nobase, depth + 1))
            if len(key) <= len(path):
                if subs:
                    v = self.subst_ci(v, subs, True)
                res = self.project(v, path[n:], k)
                if over:
                    return self.override(res, over, k)
                return res
            tail = key[n:]
            if subs:
                v = self.subst_ci(v, subs, True)
                tail = tuple((x[0],) + tuple(self.subst_ci(q, subs, True) for q in x[1:])
                             if type(x) is tuple and x[0] in ("[", "[*") else x for x in tail)
            over.append((tail, v))
        res = self.sym(init, k)
        if over:
            return self.override(res, over, k)
        return res

    def _brief(self, items, path):
        # identify the store contents relevant to an ambiguous read
        out = []
        for key, v in items:
            if self._match(key, path, []) != "no":
                out.append((key, v))
        return tuple(out)

    def subst_ci(self, v, subs, shift=False):
        """replace the comprehension indices ci(0..) by subs; with shift the remaining
        ones are renumbered from 0 (the value stands on its own afterwards)"""
        def f(at):
            if type(at) is tuple and len(at) == 2 and at[0] == "ci":
                if at[1] < len(subs):
                    return subs[at[1]]
                if shift:
                    na = ("ci", at[1] - len(subs))
                    mark_int(na)
                    return Poly.atom(na)
            return None
        return sub_any(v, f, {})

    def override(self, base, over, k):
        # over: newest first
        if isinstance(base, Agg):
            items = list(base.v[1])
            for rel, v in reversed(over):
                n = len(rel)
                items = [kv for kv in items if kv[0][:n] != rel]
                items.append((rel, v))
            return Agg(base.v[0], tuple(items))
        if isinstance(base, Mat):
            e = list(base.e)
            for rel, v in reversed(over):
                i = self.flat(rel, base.r, base.c)
                if i is None:
                    return self.sym(self.fresh("matov"), ("mat", base.r, base.c))
                e[i] = v
            return Mat(base.r, base.c, tuple(e))
        return Agg(("op", base), tuple(reversed(over)))

    def flat(self, rel, r, c):
        idx = [x[1] for x in rel if type(x) is tuple and x[0] == "["]
        if len(idx) != len(rel) or any(not x.is_const() for x in idx):
            return None
        idx = [int(x.cval()) for x in idx]
        if len(idx) == 1:
            return idx[0]
        return idx[0] * c + idx[1]

    def project(self, v, rel, k):
        if not rel:
            return v
        if isinstance(v, IteV):
            return self.join_val(v.v[0], self.project(v.v[1], rel, k), self.project(v.v[2], rel, k))
        if isinstance(v, Agg):
            base = v.v[0]
            if type(base) is tuple and base and base[0] == "in":
                init = ("in", base[1] + rel)
            elif type(base) is tuple and base and base[0] == "empty":
                if rel == ((".", "#size"),):
                    init = None
                else:
                    init = ("proj", base, rel)
            elif type(base) is tuple and base and base[0] == "call":
                init = ("proj", base, rel)
            else:
                init = ("proj", base, rel)
            if init is None:
                items = list(v.v[1])
                for key, val in items:
                    if key == rel:
                        return self.lookup(items, rel, k, ("x",))
                return ZERO
            return self.lookup(list(v.v[1]), rel, k, init)
        if isinstance(v, Mat):
            i = self.flat(rel, v.r, v.c)
            if i is not None and 0 <= i < len(v.e):
                return v.e[i]
            idx = tuple(x[1] if type(x) is tuple and x[0] == "[" else x for x in rel)
            return self.sym(("el", v, idx), ("flt",))
        if isinstance(v, Quat) and len(rel) == 1 and rel[0][0] == ".":
            q = rel[0][1]
            if q in "xyzw":
                return v.e["xyzw".index(q)]
        if isinstance(v, Op):
            if rel == ((".", "#size"),) and v.v[0] == ("empty",):
                return ZERO
            return self.sym(("proj", v.v[0], rel), k)
        return self.sym(("proj", v, rel), k)

    def write(self, st, path, v, ty=None):
        if ty is not None:
            self.types[path] = ty
        h = gk(path)
        if len(path) == 1:
            for g in [g for g in st.mem if g[0] == path[0]]:
                del st.mem[g]
            st.mem[h] = [(path, v)]
            return
        g = st.mem.get(h)
        if g is None:
            st.mem[h] = [(path, v)]
        else:
            # drop exact overwrites and descendants
            n = len(path)
            ng = [kv for kv in g if kv[0][:n] != path]
            ng.append((path, v))
            st.mem[h] = ng

    # ---------------- joins
    def join_val(self, c, a, b):
        if c.k == "T":
            return a
        if c.k == "N":
            return b
        if a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, F) and isinstance(b, F):
            return f_or(f_and(c, a), f_and(f_not(c), b))
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, tuple(ite(c, x, y) for x, y in zip(a.e, b.e)))
        if isinstance(a, Quat) and isinstance(b, Quat):
            return Quat(tuple(ite(c, x, y) for x, y in zip(a.e, b.e)))
        if isinstance(a, F):
            a = self.num(a)
        if isinstance(b, F):
            b = self.num(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if a == UNDEF:
            return b
        if b == UNDEF:
            return a
        return IteV(c, a, b)

    def join(self, c, s1, s2, base):
        """s1 holds when c, s2 otherwise"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State.__new__(State)
        out.loopw = base.loopw
        mem = {}
        for h in list(dict.fromkeys(list(s1.mem) + list(s2.mem))):
            g1, g2 = s1.mem.get(h), s2.mem.get(h)
            if g1 is g2 or g1 == g2:
                mem[h] = g1
                continue
            g1 = g1 or []
            g2 = g2 or []
            # common prefix of writes is kept
            i = 0
            while i < len(g1) and i < len(g2) and g1[i][0] == g2[i][0] and g1[i][1] == g2[i][1]:
                i += 1
            keys = list(dict.fromkeys([k for k, _ in g1[i:]] + [k for k, _ in g2[i:]]))
            ng = list(g1[:i])
            for key in keys:
                if any(x[0] in ("[*", "[?") for x in key if type(x) is tuple):
                    v1 = self._exact(g1, key)
                    v2 = self._exact(g2, key)
                    if v1 is None or v2 is None:
                        # element-wise definition on one side only
                        ng.append((key, IteV(c, v1 if v1 is not None else Op(("unwritten", key)),
                                             v2 if v2 is not None else Op(("unwritten", key)))
                                   if False else self._cond_comp(c, v1, v2, key)))
                        continue
                else:
                    ty = self.types.get(key)
                    v1 = self._rd(s1, key, ty)
                    v2 = self._rd(s2, key, ty)
                ng = [kv for kv in ng if kv[0] != key]
                ng.append((key, self.join_val(c, v1, v2)))
            mem[h] = ng
        out.mem = mem
        # path condition
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] == s2.pc[n]:
            n += 1
        out.pc = s1.pc[:n]
        out.facts = base.facts
        if s1.pc != s2.pc:
            d = f_or(f_and(*s1.pc[n:]), f_and(*s2.pc[n:]))
            out.pc = out.pc + ((d,) if d.k != "T" else ())
            if d.k != "T":
                f = dict(out.facts)
                for x in ([d] + (list(d.v) if d.k == "and" else [])):
                    f[x] = TRUE
                    f[f_not(x)] = FALSE
                out.facts = f
        out.ev = base.ev
        return out

    def _cond_comp(self, c, v1, v2, key):
        base = self.sym(("unw", key), self.types.get(key) or ("cls", "?"))
        a = v1 if v1 is not None else base
        b = v2 if v2 is not None else base
        return self.join_val(c, a, b)

    def _exact(self, g, key):
        for k, v in reversed(g):
            if k == key:
                return v
        return None

    def _rd(self, st, key, ty):
        g = st.mem.get(gk(key)) or []
        v = self._exact(g, key)
        if v is not None:
            return v
        return self.read(st, key, ty if ty is not None else ("cls", "?"))

    # ---------------- helpers
    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, F):
            if v.k == "T":
                return ONE
            if v.k == "N":
                return ZERO
            return ite(v, ONE, ZERO)
        if isinstance(v, Mat) and len(v.e) == 1:
            return v.e[0]
        if isinstance(v, Null):
            return ZERO
        return Poly.atom(("v", ("asnum", v)))

    def cond(self, v):
        if isinstance(v, F):
            return v
        if isinstance(v, Poly):
            if len(v.t) == 1 and not v.is_const():
                (m, c), = v.t.items()
                if len(m) == 1 and m[0][1] == 1:
                    at = _atoms[m[0][0]]
                    if at[0] == "ite" and at[2] == ONE and at[3] == ZERO and c == 1:
                        return at[1]
            return f_not(f_eq0(v))
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, Ptr):
            return TRUE
        if isinstance(v, PtrT):
            return f_not(f_atom(("isnull", v.v[0])))
        if isinstance(v, IteV):
            return f_or(f_and(v.v[0], self.cond(v.v[1])), f_and(f_not(v.v[0]), self.cond(v.v[2])))
        if isinstance(v, Str):
            return TRUE
        return f_atom(("truth", v))

    def simp(self, st, c):
        if c.k in ("T", "N") or not st.facts:
            return c
        return feval(c, st.facts)

    # ---------------- running a function
    def call_entry(self, f, this=None, args=None, st=None):
        """interpret f from symbolic inputs; returns (state, value)"""
        st = st or State()
        fr = Frame(f, this)
        args = args or {}
        for i, p in enumerate(f["params"]):
            ty = p["t"]
            nm = p["n"] or "arg%d" % i
            path = (("P", nm),)
            if p["n"] in args:
                a = args[p["n"]]
                if isinstance(a, Place):
                    fr.vars[p["id"]] = a
                    continue
                fr.vars[p["id"]] = Place(path, ty)
                self.write(st, path, a, ty)
            else:
                fr.vars[p["id"]] = Place(path, ty)
        return self.run(f, fr, st)

    def run(self, f, fr, st):
        self.fns.add(f["fn"])
        self.stack.append(f["fn"])
        fr.retref = f["rt"].endswith("&") and not f["rt"].endswith("&&")
        try:
            if f.get("kind") == "ctor":
                for i in f.get("inits", ()):
                    self.ctor_init(i, f, fr, st)
            s = self.exec(f["body"], st, fr)
        finally:
            self.stack.pop()
        exits = fr.exits
        if s is not None:
            exits = exits + [(s, None)]
        if not exits:
            return None, None
        return self.merge_exits(exits, st)

    def merge_exits(self, exits, base):
        s, v = exits[-1]
        for e, ev in reversed(exits[:-1]):
            n = 0
            while n < len(e.pc) and n < len(s.pc) and e.pc[n] == s.pc[n]:
                n += 1
            c = f_and(*e.pc[n:])
            nev = s.ev
            sj = self.join(c, e, s, base)
            sj.ev = nev if len(nev) >= len(e.ev) else e.ev
            if ev is None and v is None:
                v = None
            elif isinstance(ev, Place) and isinstance(v, Place):
                if ev.path != v.path:
                    v = self.join_val(c, self.rdplace(e, ev), self.rdplace(s, v))
            else:
                a = self.rdplace(e, ev) if isinstance(ev, Place) else ev
                b = self.rdplace(s, v) if isinstance(v, Place) else v
                if a is None:
                    a = UNDEF
                if b is None:
                    b = UNDEF
                v = self.join_val(c, a, b)
            s = sj
        return s, v

    def ctor_init(self, i, f, fr, st):
        if i.get("f"):
            path = fr.this + ((".", i["f"]),)
            e = i["e"]
            if e is None:
                return
            v = self.ev(e, st, fr)
            self.write(st, path, v, e.get("t"))
        elif i.get("base"):
            e = i["e"]
            if e and e.get("k") == "ctor" and e.get("fn") in self.P.funcs:
                g = self.P.funcs[e["fn"]]
                self.invoke(g, fr.this, e["a"], st, fr, e)
        elif i.get("deleg"):
            e = i["e"]
            if e and e.get("k") == "ctor" and e.get("fn") in self.P.funcs:
                self.invoke(self.P.funcs[e["fn"]], fr.this, e["a"], st, fr, e)

    # ---------------- statements
    def exec(self, s, st, fr):
        if s is None or st is None:
            return st
        self.nodes += 1
        if self.nodes > self.budget or self.deadline and time.time() > self.deadline:
            raise Limit("budget")
        self.cur = st
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.unknown.append(("stmt " + k, fr.fn["qn"], s.get("l")))
            return st
        return m(s, st, fr)

    def s_blk(self, s, st, fr):
        for x in s["s"]:
            st = self.exec(x, st, fr)
            if st is None:
                return None
        return st

    def s_null(self, s, st, fr):
        return st

    def s_label(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    def s_goto(self, s, st, fr):
        raise Limit("goto")

    def s_expr(self, s, st, fr):
        e = s["e"]
        if e["k"] == "throw":
            return self.throw(e, st, fr)
        lg = self.log_chain(e)
        if lg is not None:
            st.ev = st.ev + [("log", lg, e.get("l"), fr.fn["qn"])]
            return st
        try:
            self.ev(e, st, fr)
        except Terminated:
            return None
        return st

    def log_chain(self, e):
        """log << a << b ... : the level, or None"""
        x = strip(e)
        if x["k"] != "call" or x.get("op") != "<<":
            return None
        while x["k"] == "call" and x.get("op") == "<<":
            nx = x.get("o") if x.get("o") is not None else (x["a"][0] if x["a"] else None)
            if nx is None:
                return None
            x = strip(nx)
        if x["k"] == "call" and x.get("n") == "Cout" and x.get("in"):
            a = strip(x["a"][0]) if x["a"] else {}
            return a.get("v", a.get("cv")) if a.get("k") == "int" or "cv" in a else "?"
        return None

    def throw(self, e, st, fr):
        self.throws.append((st.pc, e.get("tt"), fr.fn, e, list(st.ev), st.copy()))
        return None

    def decl_var(self, v, st, fr):
        self.n += 1
        path = (("V", v["n"], self.n),)
        ty = v["t"]
        if v.get("static"):
            path = (("S", fr.fn["qn"], v["n"]),)
            fr.vars[v["id"]] = Place(path, ty)
            return
        if v.get("ref") and v.get("i") is not None:
            pl = self.lv(v["i"], st, fr)
            if pl is not None:
                fr.vars[v["id"]] = pl
                return
            if not ty.startswith("const ") and not ty.endswith("&&") and lvalue(v["i"]):
                LOST.append((fr.fn["qn"], v["n"]))
        fr.vars[v["id"]] = Place(path, ty)
        i = v.get("i")
        if i is None:
            val = self.default(ty, v)
        else:
            val = self.ev(i, st, fr)
            val = self.coerce(val, ty)
        self.write(st, path, val, ty)
        for b in v.get("bind", ()):
            if b.get("hv"):
                self.decl_var(b["hv"], st, fr)
                hv = fr.vars[b["hv"]["id"]]
                fr.vars[b["id"]] = hv
            elif b.get("e"):
                pl = self.lv(b["e"], st, fr)
                fr.vars[b["id"]] = pl if pl is not None else Place((("V", b["n"], self.n),), "")

    def default(self, ty, v=None):
        k = tinfo(ty)
        if k[0] in ("vec", "str"):
            return Agg(("empty",), ()) if k[0] == "vec" else Str("")
        if k[0] in ("cls", "arr"):
            return Agg(("undef", v["n"] if v else ""), ())
        if k[0] == "mat":
            return Mat(k[1], k[2], tuple(A("undef", (v["n"] if v else "", i)) for i in range(k[1] * k[2])))
        if k[0] in ("int", "flt"):
            return A("undef", v["n"] if v else "")
        return UNDEF

    def coerce(self, v, ty):
        k = tinfo(ty)
        if k[0] == "bool":
            return self.cond(v) if not isinstance(v, F) else v
        if k[0] in ("int", "flt") and isinstance(v, F):
            return self.num(v)
        if k[0] == "mat" and isinstance(v, Mat) and (v.r, v.c) != (k[1], k[2]) and v.r * v.c == k[1] * k[2]:
            return Mat(k[1], k[2], v.e)
        if k[0] == "quat" and isinstance(v, Mat) and len(v.e) == 4:
            return Quat(v.e)
        return v

    def s_decl(self, s, st, fr):
        for v in s["v"]:
            try:
                self.decl_var(v, st, fr)
            except Terminated:
                return None
        return st

    def s_if(self, s, st, fr):
        if s.get("init"):
            st = self.exec(s["init"], st, fr)
        if s.get("cvar"):
            self.decl_var(s["cvar"], st, fr)
        try:
            c = self.cond(self.ev(s["c"], st, fr))
        except Terminated:
            return None
        return self.branch(c, st, fr, lambda x: self.exec(s["x"], x, fr),
                           lambda x: self.exec(s["y"], x, fr) if s["y"] else x, s)

    def branch(self, c, st, fr, ft, fe, node=None):
        c = self.simp(st, c)
        if c.k == "T":
            return ft(st)
        if c.k == "N":
            return fe(st)
        a = st.copy()
        a.assume(c)
        a.ev = []
        b = st.copy()
        b.assume(f_not(c))
        b.ev = []
        nx = len(fr.exits)
        a2 = ft(a)
        eva = a2.ev if a2 is not None else a.ev + [("exit",)]
        b2 = fe(b)
        evb = b2.ev if b2 is not None else b.ev + [("exit",)]
        e = None
        if (eva and eva != [("exit",)]) or (evb and evb != [("exit",)]):
            e = ("if", c, tuple(eva), tuple(evb))
        base = st
        if e is not None:
            st.ev = st.ev + [e]
        for i in range(nx, len(fr.exits)):
            x, v = fr.exits[i]
            x.ev = list(st.ev)
        if a2 is None and b2 is None:
            return None
        if a2 is None:
            b2.ev = list(st.ev)
            return b2
        if b2 is None:
            a2.ev = list(st.ev)
            return a2
        r = self.join(c, a2, b2, base)
        r.ev = list(st.ev)
        return r

    def s_ret(self, s, st, fr):
        v = None
        if s["e"] is not None:
            try:
                if fr.retref:
                    v = self.lv(s["e"], st, fr)
                if v is None:
                    v = self.ev(s["e"], st, fr)
                    if not fr.fn.get("lambda"):
                        v = self.coerce(v, fr.fn["rt"])
            except Terminated:
                return None
        fr.exits.append((st, v))
        return None

    def s_brk(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]["brk"].append(st)
            return None
        raise Limit("break outside loop")

    def s_cont(self, s, st, fr):
        for l in reversed(fr.loops):
            if l["kind"] == "loop":
                l["cont"].append(st)
                return None
        raise Limit("continue outside loop")

    def s_try(self, s, st, fr):
        # the non-exceptional flow; handlers are approximated by 'throws'
        nt = len(self.throws)
        before = st.copy()
        r = self.exec(s["b"], st, fr)
        thrown = self.throws[nt:]
        if self.inline_handlers and thrown:
            r2 = self.handlers(s, before, thrown, nt, fr, r)
            return r2
        return r

    inline_handlers = False

    def handlers(self, s, before, thrown, nt, fr, r):
        return r

    def s_sw(self, s, st, fr):
        if s.get("init"):
            st = self.exec(s["init"], st, fr)
        v = self.num(self.ev(s["c"], st, fr))
        # flatten body into list of (labels, stmts)
        segs = []

        def flat(x):
            if x["k"] == "case":
                segs.append(["case", x["v"], []])
                flat(x["s"])
            elif x["k"] == "default":
                segs.append(["default", None, []])
                flat(x["s"])
            elif segs:
                segs[-1][2].append(x)
            else:
                segs.append(["pre", None, [x]])
        body = s["b"]["s"] if s["b"]["k"] == "blk" else [s["b"]]
        for x in body:
            flat(x)
        conds = []
        for kind, val, ss in segs:
            if kind == "case":
                conds.append(f_eq0(v - self.num(self.ev(val, st, fr))))
        anyc = f_or(*conds) if conds else FALSE
        lp = {"kind": "switch", "brk": [], "cont": []}
        fr.loops.append(lp)
        outs = []      # (cond, state) exclusive
        rest = st

        # run from each entry label through fallthrough until break
        def run_from(i, x):
            for kind, val, ss in segs[i:]:
                for t in ss:
                    x = self.exec(t, x, fr)
                    if x is None:
                        return None
            return x

        def go(i, x):
            # decide the entry among cases i.. ; default handled last
            j = i
            while j < len(segs) and segs[j][0] != "case":
                j += 1
            if j >= len(segs):
                d = [n for n, sg in enumerate(segs) if sg[0] == "default"]
                if d:
                    return self.sw_run(lambda y: run_from(d[0], y), x, lp)
                return x
            c = f_eq0(v - self.num(self.ev(segs[j][1], x, fr)))
            return self.branch(c, x, fr, lambda y: self.sw_run(lambda z: run_from(j, z), y, lp),
                               lambda y: go(j + 1, y), s)
        try:
            r = go(0, st)
        finally:
            fr.loops.pop()
        return r

    def sw_run(self, f, x, lp):
        lp["brk"] = []
        base = x
        r = f(x)
        outs = [(b, None) for b in lp["brk"]]
        lp["brk"] = []
        if r is not None:
            outs.append((r, None))
        if not outs:
            return None
        s, _ = self.merge_exits(outs, base)
        return s

    # ---------------- loops
    def s_for(self, s, st, fr):
        if s["init"]:
            st = self.exec(s["init"], st, fr)
        return self.loop(st, fr, s, cond=s["c"], inc=s["inc"], body=s["b"])

    def s_while(self, s, st, fr):
        return self.loop(st, fr, s, cond=s["c"], inc=None, body=s["b"])

    def s_do(self, s, st, fr):
        # body once, then as while
        lp = {"kind": "loop", "brk": [], "cont": []}
        fr.loops.append(lp)
        base = st
        r = self.exec(s["b"], st, fr)
        fr.loops.pop()
        if lp["brk"]:
            raise Limit("break in do")
        outs = [(x, None) for x in lp["cont"]] + ([(r, None)] if r is not None else [])
        if not outs:
            return None
        r, _ = self.merge_exits(outs, base)
        return self.loop(r, fr, s, cond=s["c"], inc=None, body=s["b"])

    def s_rfor(self, s, st, fr):
        if s.get("init"):
            st = self.exec(s["init"], st, fr)
        # constant list
        r = strip(s["r"])
        pl = self.lv(s["r"], st, fr)
        if pl is None:
            v = self.ev(s["r"], st, fr)
            self.n += 1
            pl = Place((("V", "range", self.n),), s["r"]["t"])
            self.write(st, pl.path, v, s["r"]["t"])
        k = tinfo(s["r"]["t"])
        if k[0] == "vec":
            n = self.num(self.read(st, pl.path + ((".", "#size"),), "int"))
        elif k[0] == "arr" and k[2]:
            n = C(k[2])
        else:
            n = Poly.atom(("v", ("rangesize", pl.path)))
        el = s["v"]["t"]

        def bind(x, it):
            p = pl.path + (("[", it),)
            ety = k[1] if k[0] in ("vec", "arr") else el
            if s["v"].get("ref"):
                fr.vars[s["v"]["id"]] = Place(p, ety)
                if s["v"].get("bind"):
                    pass
            else:
                self.n += 1
                q = (("V", s["v"]["n"], self.n),)
                fr.vars[s["v"]["id"]] = Place(q, el)
                self.write(x, q, self.read(x, p, ety), el)
            return x
        return self.loop(st, fr, s, cond=None, inc=None, body=s["b"], count=n, bind=bind)

    def has_jump(self, body, kinds):
        """break/return directly affecting this loop"""
        def w(x, inloop):
            if x is None:
                return False
            if type(x) is list:
                return any(w(y, inloop) for y in x)
            if type(x) is not dict:
                return False
            k = x.get("k")
            if k == "ret" and "ret" in kinds:
                return True
            if k == "brk" and "brk" in kinds and not inloop:
                return True
            if k in ("for", "while", "do", "rfor", "sw"):
                inl = True
                return any(w(v, inl) for v in x.values() if type(v) in (dict, list))
            if k == "lambda":
                return False
            return any(w(v, inloop) for v in x.values() if type(v) in (dict, list))
        return w(body, False)

    def loop(self, st, fr, s, cond, inc, body, count=None, bind=None):
        # try full unrolling when the condition is decided at each iteration
        snap = st.copy()
        nx, nt = len(fr.exits), len(self.throws)
        r, ok = self.unroll(st.copy(), fr, cond, inc, body, count, bind)
        if ok:
            return r
        del fr.exits[nx:]
        del self.throws[nt:]
        return self.summarise(snap, fr, s, cond, inc, body, count, bind)

    def unroll(self, st, fr, cond, inc, body, count, bind):
        if count is not None and (not count.is_const() or count.cval() > self.max_unroll):
            return None, False
        done = []
        lp = {"kind": "loop", "brk": [], "cont": []}
        i = 0
        while True:
            if count is not None:
                if i >= count.cval():
                    break
            if cond is not None:
                try:
                    c = self.simp(st, self.cond(self.ev(cond, st, fr)))
                except Terminated:
                    return None, True
                if c.k == "N":
                    break
                if c.k != "T":
                    if i == 0 or True:
                        return None, False
            elif count is None:
                return None, False
            if i > self.max_unroll:
                return None, False
            if bind:
                st = bind(st, C(i))
            lp["cont"], base = [], st
            fr.loops.append(lp)
            r = self.exec(body, st, fr)
            fr.loops.pop()
            outs = [(x, None) for x in lp["cont"]] + ([(r, None)] if r is not None else [])
            if not outs:
                st = None
                break
            st, _ = self.merge_exits(outs, base)
            if inc is not None:
                self.ev(inc, st, fr)
            i += 1
        outs = [(x, None) for x in lp["brk"]] + ([(st, None)] if st is not None else [])
        if not outs:
            return None, True
        st, _ = self.merge_exits(outs, outs[0][0])
        return st, True

    def is_mu(self, lid):
        return lambda at: type(at) is tuple and len(at) >= 2 and ((at[0] == "mu" and at[1] == lid))

    def summarise(self, st, fr, s, cond, inc, body, count, bind):
        self.loopno += 1
        lid = ("L", s.get("l"), fr.fn["n"])
        d = self.loopdepth
        it = ("it", d)
        mark_int(it)
        itp = Poly.atom(it)
        irregular = self.has_jump(body, ("ret", "brk"))
        saved_bound = self.bounds.get(aid(it))
        self.bounds[aid(it)] = count if count is not None else A("v", ("trips", lid))
        self.loopdepth += 1
        try:
            mods = {}        # path -> type
            arrs = {}        # base path -> True
            ncond = None
            for attempt in range(8):
                x = st.copy()
                x.ev = []
                nx, nt = len(fr.exits), len(self.throws)
                for p in mods:
                    ty = self.types.get(p) or "?"
                    self.write(x, p, self.sym(("mu", lid, p), ty))
                x.loopw = st.loopw + tuple((q, None, self.before(st, q)) for q in arrs)
                if ncond is not None:
                    x.assume(ncond)
                lp = {"kind": "loop", "brk": [], "cont": []}
                if bind:
                    x = bind(x, itp)
                cf = None
                if cond is not None:
                    cf = self.cond(self.ev(cond, x, fr))
                    x.assume(cf)
                fr.loops.append(lp)
                base = x.copy()
                r = self.exec(body, x, fr)
                fr.loops.pop()
                outs = [(y, None) for y in lp["cont"]] + ([(r, None)] if r is not None else [])
                if outs:
                    y, _ = self.merge_exits(outs, base)
                    if inc is not None:
                        self.ev(inc, y, fr)
                else:
                    y = None
                    # the body never completes an iteration
                new = False
                late = []
                if y is not None:
                    for h, g in y.mem.items():
                        g0 = st.mem.get(h)
                        if g is g0:
                            continue
                        for key, v in g:
                            v0 = self._exact(g0, key) if g0 else None
                            if v0 is not None and v0 == v:
                                continue
                            b = self.arr_base(key, it, lid)
                            if b is not None:
                                if b not in arrs:
                                    late.append((b, True))
                                continue
                            if key not in mods:
                                root = key[0]
                                if root[0] == "V" and root not in {hh[0] for hh in st.mem}:
                                    continue     # declared inside
                                if self.types.get(key) is None:
                                    self.types[key] = "?"
                                if any(type(q) is tuple and q[0] in ("[", "[*", "[?") for q in key[1:]):
                                    late.append((key, False))
                                    continue
                                mods[key] = True
                                new = True
                # element writes are only believed once every scalar that may
                # index them is known to vary
                if not new:
                    for q, isarr in late:
                        (arrs if isarr else mods)[q] = True
                        new = True
                if not new:
                    break
                del fr.exits[nx:]
                del self.throws[nt:]
            if y is None:
                return None if False else self.loop_none(st, fr, lid, mods)
            # ---- classify
            mu = self.is_mu(lid)
            sub = {}
            klass = {}
            res = {}
            for p in mods:
                ty = self.types.get(p)
                init = self._rd(st, p, ty)
                v = self._rd(y, p, ty)
                m = self.sym(("mu", lid, p), ty)
                res[p] = (init, v, m)
            def comps(v):
                if isinstance(v, Mat):
                    return list(v.e)
                if isinstance(v, Quat):
                    return list(v.e)
                return [v]
            delta = {}
            for p, (init, v, m) in res.items():
                cs = []
                ci, cv, cm = comps(init), comps(v), comps(m)
                if not (len(ci) == len(cv) == len(cm)):
                    klass[p] = None
                    continue
                for a, b, c in zip(ci, cv, cm):
                    if isinstance(b, Poly) and isinstance(c, Poly) and isinstance(a, Poly):
                        dlt = b - c
                        if not contains(dlt, self.mu_pred(lid)):
                            cs.append(("acc", dlt))
                        elif not contains(b, self.mu_pred(lid)):
                            cs.append(("last", b))
                        else:
                            cs.append(("rec", dlt, b))
                    elif not contains(b, self.mu_pred(lid)):
                        cs.append(("last", b))
                    else:
                        cs.append(("non", None))
                klass[p] = cs
            # substitution for linear/accumulating scalars; iterate so that deltas that
            # mention induction variables become accumulators
            sub = {}

            def register(p):
                init, v, m = res[p]
                for a, c, cm in zip(comps(init), klass[p], comps(m)):
                    if c[0] == "acc":
                        at = self.single_atom(cm)
                        if at is None:
                            continue
                        if contains(c[1], lambda t: t == it):
                            val = a + self.psum(c[1], it, itp)
                        else:
                            val = a + c[1] * itp
                        sub[at] = val
            for rnd in range(4):
                for p in res:
                    if klass.get(p):
                        register(p)
                if not sub:
                    break
                changed = False
                f = lambda at: sub.get(at)
                for p, cs in klass.items():
                    if not cs:
                        continue
                    for i, c in enumerate(cs):
                        if c[0] == "rec":
                            dd = subst(c[1], f)
                            bb = subst(c[2], f)
                            own = self.single_atom(comps(res[p][2])[i])
                            if not contains(dd, self.mu_pred(lid)):
                                cs[i] = ("acc", dd)
                                changed = True
                            elif not contains(bb, self.mu_pred(lid)):
                                cs[i] = ("last", bb)
                                changed = True
                        elif c[0] == "acc":
                            dd = subst(c[1], f)
                            if dd != c[1]:
                                cs[i] = ("acc", dd)
                                changed = True
                        elif c[0] == "last":
                            bb = sub_any(c[1], f, {})
                            if bb != c[1]:
                                cs[i] = ("last", bb)
                                changed = True
                if not changed:
                    break
            f = lambda at: sub.get(at)
            # ---- trip count
            n = count
            if n is None and cf is not None:
                cf2 = fsubst(cf, f, {})
                n = self.trips(cf2, it, itp, lid)
            if n is None or irregular:
                n = Poly.atom(("v", ("trips", lid)))
                mark_int(("v", ("trips", lid)))
            self.bounds[aid(it)] = n
            # re-run once with induction variables in closed form, so that indices and
            # array reads inside the body are resolved with them
            if sub or arrs or (count is None):
                # an array written at one index per iteration (unit stride) still holds
                # its previous contents at that index until it is written
                okw = []
                for b in arrs:
                    es = set()
                    for key, v in (y.mem.get(gk(b)) or []):
                        if key[:len(b)] == b and len(key) > len(b):
                            v0 = self._exact(st.mem.get(gk(b)) or [], key)
                            if v0 is None or v0 != v:
                                es.add(key[len(b)])
                    ok = None
                    if len(es) == 1:
                        e0 = next(iter(es))
                        if type(e0) is tuple and e0[0] == "[":
                            ix = subst(e0[1], f)
                            co = ix.t.get(((aid(it), 1),), 0)
                            if co in (1, -1) and not contains(ix - itp.scale(co), lambda t: t == it) \
                                    and not contains(ix, self.mu_pred(lid)):
                                ok = ix
                    okw.append((b, ok, self.before(st, b)))
                x = st.copy()
                x.ev = []
                del fr.exits[nx:]
                del self.throws[nt:]
                for p in mods:
                    ty = self.types.get(p) or "?"
                    m = self.sym(("mu", lid, p), ty)
                    self.write(x, p, sub_any(m, f, {}))
                x.loopw = st.loopw + tuple(okw)
                lp = {"kind": "loop", "brk": [], "cont": []}
                if bind:
                    x = bind(x, itp)
                if cond is not None:
                    x.assume(self.cond(self.ev(cond, x, fr)))
                fr.loops.append(lp)
                base = x.copy()
                r = self.exec(body, x, fr)
                fr.loops.pop()
                outs = [(q, None) for q in lp["cont"]] + ([(r, None)] if r is not None else [])
                if not outs:
                    return self.loop_none(st, fr, lid, mods)
                y, _ = self.merge_exits(outs, base)
                if inc is not None:
                    self.ev(inc, y, fr)
            self.on_loop({"lid": lid, "s": s, "res": res, "klass": klass, "cond": cf, "ev": y.ev, "fr": fr,
                          "n": n, "it": it, "irregular": irregular, "pre": st, "body": y})
            # ---- post state
            out = st.copy()
            fin = {it: n}
            last = n - ONE
            for p in mods:
                init, v, m = res[p]
                v2 = self._rd(y, p, self.types.get(p))
                cs = klass.get(p)
                if irregular:
                    self.write(out, p, self.sym(("loopout", lid, p), self.types.get(p) or "?"))
                    continue
                if cs is None:
                    self.write(out, p, self.sym(("loopout", lid, p), self.types.get(p) or "?"))
                    continue
                vals = []
                for a, b, c in zip(comps(init), comps(v2), cs):
                    if c[0] == "acc":
                        dl = c[1]
                        if contains(dl, lambda t: t == it):
                            vals.append(a + self.sumform(dl, it, n))
                        else:
                            vals.append(a + dl * n)
                    elif c[0] == "last":
                        bv = c[1]
                        bl = sub_any(bv, lambda at: last if at == it else None, {})
                        if self.prove_ge0(n - ONE):
                            vals.append(bl)
                        else:
                            vals.append(self.join_val(f_ge0(n - ONE, True), bl, a))
                    else:
                        vals.append(self.sym(("loopout", lid, p, len(vals), sub_any(b, f, {}) if isinstance(b, (Poly, F, V)) else None),
                                             ("flt",) if isinstance(a, Poly) else (self.types.get(p) or "?")))
                if isinstance(init, Mat):
                    nv = Mat(init.r, init.c, tuple(vals))
                elif isinstance(init, Quat):
                    nv = Quat(tuple(vals))
                else:
                    nv = vals[0]
                self.write(out, p, nv)
            # arrays
            self.loopmods = mods
            for b in arrs:
                g = y.mem.get(gk(b)) or []
                g0 = st.mem.get(gk(b)) or []
                ws = []
                for key, v in g:
                    if key[:len(b)] != b or len(key) == len(b):
                        continue
                    v0 = self._exact(g0, key)
                    if v0 is not None and v0 == v:
                        continue
                    ws.append((key, v))
                if len(set(key[len(b)] for key, _ in ws)) > 1:
                    ws = self.several(st, out, b, ws, it, itp, n, lid, irregular)
                for key, v in ws:
                    self.comp_write(out, key, v, it, itp, n, lid, irregular)
            if y.ev:
                out.ev = out.ev + [("loop", n, tuple(y.ev), s.get("l"))]
            return out
        finally:
            self.loopdepth -= 1
            if saved_bound is None:
                self.bounds.pop(aid(it), None)
            else:
                self.bounds[aid(it)] = saved_bound

    def several(self, st, out, b, ws, it, itp, n, lid, irregular):
        """an array written at several indices per iteration: what is still to be written, in order"""
        offs = {}
        for key, v in ws:
            e = key[len(b)]
            if e[0] != "[" or irregular:
                break
            o = e[1] - itp
            if contains(o, lambda t: t == it) or contains(o, self.mu_pred(lid)):
                break
            offs[key] = o
        if len(offs) != len(ws):
            # leave a fixed index next to a varying one to the caller; anything else is not followed
            if sum(1 for key, _ in ws if contains(key, lambda t: t == it)) <= 1 and not irregular:
                return ws
            return [(b + (("[?",),), Op(("havoc", lid, b)))] if not irregular else ws
        k0 = next(iter(offs.values()))
        if not all((o - k0).is_const() for o in offs.values()):
            return [(b + (("[?",),), Op(("havoc", lid, b)))]
        if all(len(key) == len(b) + 1 for key, _ in ws):
            ty = self.types.get(ws[0][0]) or "?"
            acc = []
            for key, v in ws:
                m = self.sym(("mu", b, key[len(b):]), tinfo(ty) if type(ty) is str else ty)
                d = self.less(v, m)
                if d is None or contains(d, lambda t: t[0] == "mu" and len(t) > 2 and t[1] == b):
                    break
                acc.append((offs[key], d))
            if len(acc) == len(ws):
                acc.sort(key=lambda x: (x[0] - k0).cval())
                lo, ln = acc[0][0], n + acc[-1][0] - acc[0][0]
                nci = sum(1 for x in b if type(x) is tuple and x[0] == "[*")
                if not nci:
                    ci = Poly.atom(("ci", 0))
                    mark_int(("ci", 0))
                    j = lo + ci
                    J = Poly.atom(("it", 97))
                    mark_int(("it", 97))
                    val = self.read(st, b + (("[", lo + J),), ty)
                    val = sub_any(val, lambda at: ci if at == ("it", 97) else None, {})
                    for o, d in acc:
                        x = j - o
                        dx = sub_any(d, lambda at: x if at == it else None, {})
                        c = f_and(f_ge0(x, True), f_ge0(n - ONE - x, True))
                        if isinstance(val, Mat) and isinstance(dx, Mat):
                            val = Mat(val.r, val.c, tuple(p + ite(c, q, ZERO) for p, q in zip(val.e, dx.e)))
                        elif isinstance(val, Poly) and isinstance(dx, Poly):
                            val = val + ite(c, dx, ZERO)
                        else:
                            return [(b + (("[?",),), Op(("havoc", lid, b)))]
                    nk = b + (("[*", lo, ln),)
                    self.types.setdefault(nk, ty)
                    self.write(out, nk, val)
                    return []
        # the last write to an element comes from the smallest offset
        return sorted(ws, key=lambda w: -(offs[w[0]] - k0).cval())

    def less(self, v, m):
        """v - m, inside conditionals"""
        if isinstance(v, Mat) and isinstance(m, Mat) and len(v.e) == len(m.e):
            es = tuple(self.less(a, c) for a, c in zip(v.e, m.e))
            return None if None in es else Mat(v.r, v.c, es)
        if not isinstance(v, Poly) or not isinstance(m, Poly):
            return None
        a = self.single_atom(v)
        if type(a) is tuple and a and a[0] == "ite":
            x, y = self.less(a[2], m), self.less(a[3], m)
            return None if x is None or y is None else ite(a[1], x, y)
        return v - m

    def before(self, st, b):
        """what a loop found in an array"""
        return {k: v for h in (b[:1], gk(b)) for k, v in st.mem.get(h) or ()}

    def on_loop(self, info):
        pass

    def loop_none(self, st, fr, lid, mods):
        return st

    def mu_pred(self, lid):
        def pred(t):
            if t[0] == "mu" and len(t) > 1:
                return t[1] == lid or type(t[1]) is tuple and t[1] and type(t[1][0]) is tuple
            return False
        return pred

    def single_atom(self, p):
        if isinstance(p, Poly) and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        return None

    def psum(self, e, it, itp):
        """sum of e(k) for k in [0, it)"""
        body = subst(e, lambda at: Poly.atom(("bv",)) if at == it else None)
        return self.sumform0(body, itp)

    def sumform(self, e, it, n):
        body = subst(e, lambda at: Poly.atom(("bv",)) if at == it else None)
        return self.sumform0(body, n)

    def sumform0(self, body, n):
        """closed form where the summand is constant or linear in bv"""
        out = ZERO
        bv = aid(("bv",))
        for m, c in body.t.items():
            dm = dict(m)
            inside = {a: e for a, e in dm.items() if a == bv or contains(_atoms[a], lambda t: t == ("bv",))}
            rest = Poly({tuple(sorted((a, e) for a, e in dm.items() if a not in inside)): c})
            if not inside:
                out = out + rest * n
            elif inside == {bv: 1}:
                out = out + rest * (n * (n - ONE)).scale(Fraction(1, 2))
            else:
                core = Poly({tuple(sorted(inside.items())): Fraction(1)})
                if n.is_const() and 0 <= n.cval() <= 64:
                    for i in range(int(n.cval())):
                        out = out + rest * subst(core, lambda at: C(i) if at == ("bv",) else None)
                else:
                    out = out + rest * Poly.atom(("sum", core, n))
        return out

    def trips(self, cf, it, itp, lid):
        """number of iterations for which the condition cf(it) holds (prefix)"""
        if cf.k == "and":
            # every conjunct that bounds the count on its own; the first to fail ends the loop
            out = None
            for x in sorted(cf.v, key=str):
                n = self.trips(x, it, itp, lid)
                if n is None:
                    return None
                out = n if out is None else self.math("min", (out, n))
            return out
        if cf.k == "ge" or cf.k == "gt":
            p = cf.v
            a = aid(it)
            co = p.t.get(((a, 1),), 0)
            rest = p - itp.scale(co)
            if co >= 0 or contains(rest, lambda t: t == it) or a in rest.atoms():
                return None
            k = -co
            # rest - k*it >= 0  => it <= rest/k
            if cf.k == "ge":
                if k == 1:
                    return rest + ONE
                return self.idiv(rest, C(k)) + ONE
            if k == 1:
                return rest
            return self.idiv(rest - ONE, C(k)) + ONE
        if cf.k == "not" and cf.v.k == "eq":
            p = cf.v.v
            a = aid(it)
            co = p.t.get(((a, 1),), 0)
            if not co:
                return None
            rest = p - itp.scale(co)
            if a in rest.atoms() or contains(rest, lambda t: t == it):
                return None
            return rest.scale(-1 / co)
        return None

    def arr_base(self, key, it, lid):
        """base path of an element write whose index varies with the loop"""
        for i, e in enumerate(key):
            if type(e) is tuple and e[0] in ("[", "[*", "[?"):
                if contains(e, lambda t: t == it or (t[0] == "mu" and len(t) > 1 and t[1] == lid)):
                    return key[:i]
        return None

    def comp_write(self, out, key, v, it, itp, n, lid, irregular):
        pos = None
        for i, e in enumerate(key):
            if type(e) is tuple and e[0] in ("[", "[*") and contains(e, lambda t: t == it or (t[0] == "mu" and len(t) > 1 and t[1] == lid)):
                pos = i
                break
        if pos is None:
            if not contains(v, lambda t: t == it or (t[0] == "mu" and len(t) > 1 and t[1] == lid)):
                self.write(out, key, v)
            elif key not in self.loopmods:
                self.write(out, key, self.sym(("loopout", lid, key), self.types.get(key) or "?"))
            return
        e = key[pos]
        a = aid(it)
        ok = False
        if e[0] == "[" and not irregular:
            idx = e[1]
            co = idx.t.get(((a, 1),), 0)
            lo = idx - itp.scale(co)
            if co in (1, -1) and a not in lo.atoms() and not contains(lo, lambda t: t == it) and not contains(lo, self.mu_pred(lid)):
                nci = sum(1 for x in key[:pos] if type(x) is tuple and x[0] == "[*")
                ci = Poly.atom(("ci", nci))
                mark_int(("ci", nci))
                # shift ci indices already in v by one (outer dimension goes first)
                def sh(at):
                    if type(at) is tuple and len(at) == 2 and at[0] == "ci" and at[1] >= nci:
                        mark_int(("ci", at[1] + 1))
                        return Poly.atom(("ci", at[1] + 1))
                    return None
                v = sub_any(v, sh, {})
                if co == 1:
                    v = sub_any(v, lambda at: ci if at == it else None, {})
                    start = lo
                else:
                    v = sub_any(v, lambda at: n - ONE - ci if at == it else None, {})
                    start = lo - n + ONE
                tail = ()
                for x in key[pos + 1:]:
                    if type(x) is tuple and x[0] in ("[", "[*"):
                        x = (x[0],) + tuple(sub_any(sub_any(q, sh, {}), lambda at: (ci if co == 1 else n - ONE - ci) if at == it else None, {}) for q in x[1:])
                    tail += (x,)
                nk = key[:pos] + (("[*", start, n),) + tail
                self.types.setdefault(nk, self.types.get(key))
                self.write(out, nk, v)
                ok = True
        if not ok:
            nk = key[:pos] + (("[?",),)
            self.write(out, nk, Op(("havoc", lid, key[:pos])))

    # ---------------- lvalues
    def lv(self, e, st, fr):
        """Place of an lvalue expression, or None"""
        k = e["k"]
        if k in ("icast",):
            return None
        if k == "cast":
            if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
                return self.lv(e["e"], st, fr)
            return None
        if k == "ref":
            if e["dk"] in ("local", "param", "slocal"):
                p = fr.look(e["id"])
                if p is None:
                    p = Place((("X" if e["dk"] == "slocal" else "opaque", e["n"], e["id"]),), e["t"])
                return p
            if e["dk"] == "global":
                return Place((("G", e["qn"]),), e["t"])
            return None
        if k == "this":
            return None
        if k == "mem":
            b = e["b"]
            base = self.objpath(b, st, fr, e.get("arrow"))
            if base is None:
                return None
            return Place(base + ((".", e["n"]),), e["t"])
        if k == "sub":
            p = self.elempath(e["b"], self.num(self.ev(e["i"], st, fr)), st, fr, e)
            return Place(p, e["t"]) if p is not None else None
        if k == "un" and e["op"] == "*":
            p = self.derefpath(self.ev(e["e"], st, fr), e["t"], e)
            return Place(p, e["t"]) if p is not None else None
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, st, fr)
            return self.lv(e["e"], st, fr)
        if k == "asg":
            self.ev(e, st, fr)
            return self.lv(e["x"], st, fr)
        if k == "call":
            return self.lv_call(e, st, fr)
        if k == "cond":
            c = self.simp(st, self.cond(self.ev(e["c"], st, fr)))
            return self.lv(e["x"], st, fr) if c.k == "T" else self.lv(e["y"], st, fr) if c.k == "N" else None
        return None

    def objpath(self, b, st, fr, arrow):
        if b["k"] == "this":
            return fr_this(fr)
        if arrow:
            v = self.ev(b, st, fr)
            return self.derefpath(v, None, b)
        p = self.lv(b, st, fr)
        if p is not None and p.sel is None:
            return p.path
        v = self.ev(b, st, fr)
        self.n += 1
        path = (("V", "tmp", self.n),)
        self.write(st, path, v, b["t"])
        return path

    def derefpath(self, v, ty, node=None):
        if isinstance(v, Ptr):
            return v.v[0]
        if isinstance(v, PtrT):
            if ty is not None and tinfo(ty)[0] in ("int", "flt", "bool", "mat"):
                return (("D", v.v[0]), ("[", ZERO))
            return (("D", v.v[0]),)
        if isinstance(v, Null):
            return (("D", ("null",)),)
        if isinstance(v, IteV):
            return (("D", ("val", v)),)
        if isinstance(v, (Op, Agg)):
            return (("D", ("val", v)),)
        return (("D", ("val", v)),)

    def elempath(self, b, i, st, fr, node=None):
        bt = tinfo(b["t"])
        if bt[0] == "arr":
            p = self.lv(b, st, fr)
            if p is not None:
                self.index_event(p.path, i, bt, st, fr, node)
                return p.path + (("[", i),)
        v = self.ev(b, st, fr)
        return self.ptr_elem(v, i)

    def index_event(self, path, i, bt, st, fr, node):
        if self.on_index:
            self.on_index(self, path, i, bt, st, fr, node)

    def ptr_elem(self, v, i):
        if isinstance(v, Ptr):
            p = v.v[0]
            if p and type(p[-1]) is tuple and p[-1][0] == "[":
                return p[:-1] + (("[", p[-1][1] + i),)
            return p + (("[", i),)
        if isinstance(v, PtrT):
            return (("D", v.v[0]), ("[", i))
        return (("D", ("val", v)), ("[", i))

    def rdplace(self, st, p):
        if p.sel is not None:
            m = self.read(st, p.path, p.ty)
            if isinstance(m, Mat):
                vals = tuple(m.e[i] for i in p.sel)
                if p.shape is None:
                    return vals[0]
                return Mat(p.shape[0], p.shape[1], vals)
            if isinstance(m, Quat):
                vals = tuple(m.e[i] for i in p.sel)
                return vals[0] if p.shape is None else Mat(p.shape[0], p.shape[1], vals)
            return self.sym(("selp", m, p.sel), ("mat",) + p.shape if p.shape else ("flt",))
        return self.read(st, p.path, p.ty)

    def wrplace(self, st, p, v):
        if p.sel is not None:
            m = self.read(st, p.path, p.ty)
            if isinstance(m, Quat):
                e = list(m.e)
                vs = [self.num(v)] if p.shape is None else list(v.e)
                for i, x in zip(p.sel, vs):
                    e[i] = x
                self.write(st, p.path, Quat(tuple(e)))
                return
            if not isinstance(m, Mat):
                k = tinfo(p.ty)
                if k[0] == "mat":
                    m = self.sym(("was", m), k)
                else:
                    return
            e = list(m.e)
            if p.shape is None:
                e[p.sel[0]] = self.num(v)
            else:
                if isinstance(v, Mat) and len(v.e) == len(p.sel):
                    vs = v.e
                else:
                    vs = [self.sym(("elw", v, i), ("flt",)) for i in range(len(p.sel))]
                for i, x in zip(p.sel, vs):
                    e[i] = x
            self.write(st, p.path, Mat(m.r, m.c, tuple(e)))
            return
        v = self.coerce(v, p.ty) if p.ty else v
        self.write(st, p.path, v, p.ty)

    def getmat_place(self, e, st, fr):
        """(place, r, c) of an Eigen lvalue"""
        p = self.lv(e, st, fr)
        if p is None:
            return None
        if p.sel is not None:
            if p.shape is None:
                return None
            return p, p.shape[0], p.shape[1]
        k = tinfo(p.ty)
        if k[0] == "mat":
            return p, k[1], k[2]
        if k[0] == "quat":
            return p, 4, 1
        k = tinfo(e["t"])
        if k[0] == "mat":
            return Place(p.path, e["t"]), k[1], k[2]
        return None

    def subplace(self, p, r, c, idx, shape):
        """select flat indices idx (relative to the r x c block of place p)"""
        if p.sel is not None:
            return Place(p.path, p.ty, tuple(p.sel[i] for i in idx), shape)
        return Place(p.path, p.ty, tuple(idx), shape)

    def block_idx(self, n, ta, args, r, c):
        """name of an Eigen block method -> (flat idx list, shape) or None"""
        def ci(i):
            if i < len(args) and isinstance(args[i], Poly) and args[i].is_const():
                return int(args[i].cval())
            return None
        ints = [x for x in (ta or []) if type(x) is int and x >= 0]
        vec = c == 1 or r == 1
        N = r * c
        if n in ("x", "y", "z", "w") and not args:
            i = "xyzw".index(n)
            return ([i], None) if i < N else None
        if n in ("head", "tail", "segment") and vec:
            if n == "segment":
                if ints:
                    k, s0 = ints[0], ci(0)
                else:
                    s0, k = ci(0), ci(1)
            else:
                k = ints[0] if ints else ci(0)
                if k is None:
                    return None
                s0 = 0 if n == "head" else N - k
            if s0 is None or k is None or s0 + k > N or s0 < 0:
                return None
            return list(range(s0, s0 + k)), ((k, 1) if c == 1 else (1, k))
        if n in ("row", "col"):
            i = ci(0)
            if i is None:
                return None
            if n == "row":
                return [i * c + j for j in range(c)], (1, c)
            return [j * c + i for j in range(r)], (r, 1)
        if n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "block"):
            if len(ints) >= 2:
                h, w = ints[0], ints[1]
                o = (ci(0), ci(1)) if n == "block" else None
            else:
                if n == "block":
                    o, h, w = (ci(0), ci(1)), ci(2), ci(3)
                else:
                    o, h, w = None, ci(0), ci(1)
            if h is None or w is None:
                return None
            if n == "block":
                i0, j0 = o
            else:
                i0 = 0 if n.startswith("top") else r - h
                j0 = 0 if "Left" in n else c - w
            if i0 is None or j0 is None or i0 + h > r or j0 + w > c:
                return None
            return [(i0 + i) * c + j0 + j for i in range(h) for j in range(w)], (h, w)
        if n in ("topRows", "bottomRows", "leftCols", "rightCols"):
            k = ints[0] if ints else ci(0)
            if k is None:
                return None
            if n == "topRows":
                return [i * c + j for i in range(k) for j in range(c)], (k, c)
            if n == "bottomRows":
                return [i * c + j for i in range(r - k, r) for j in range(c)], (k, c)
            if n == "leftCols":
                return [i * c + j for i in range(r) for j in range(k)], (r, k)
            return [i * c + j for i in range(r) for j in range(c - k, c)], (r, k)
        if n == "diagonal":
            m = min(r, c)
            return [i * c + i for i in range(m)], (m, 1)
        return None

    def seqn_idx(self, args, r, c):
        if not any(isinstance(a, Op) and type(a.v[0]) is tuple and a.v[0][0] == "seqN" for a in args):
            return None
        rng = []
        for a, lim in zip(args, ((r * c,) if len(args) == 1 else (r, c))):
            if isinstance(a, Poly) and a.is_const():
                rng.append([int(a.cval())])
            elif isinstance(a, Op) and type(a.v[0]) is tuple and a.v[0][0] == "seqN":
                b, k = a.v[0][1:]
                if not (isinstance(b, Poly) and b.is_const() and isinstance(k, Poly) and k.is_const()):
                    return None
                rng.append(list(range(int(b.cval()), int(b.cval() + k.cval()))))
            else:
                return None
            if not rng[-1] or rng[-1][0] < 0 or rng[-1][-1] >= lim:
                return None
        if len(rng) == 1:
            return rng[0], ((len(rng[0]), 1) if c == 1 else (1, len(rng[0])))
        return [i * c + j for i in rng[0] for j in rng[1]], (len(rng[0]), len(rng[1]))

    def lv_call(self, e, st, fr):
        n = e.get("n") or ""
        op = e.get("op")
        qn = e.get("qn", "")
        o = e.get("o")
        if qn.startswith("Eigen::") and o is not None:
            if n in ("noalias", "array", "matrix", "derived", "eval", "const_cast_derived"):
                return self.lv(o, st, fr)
            if n in ("coeffs", "vec") and "Quaternion" in qn:
                mp = self.getmat_place(o, st, fr)
                if mp is None:
                    return None
                k = 4 if n == "coeffs" else 3
                return Place(mp[0].path, mp[0].ty, tuple(range(k)), (k, 1))
            mp = self.getmat_place(o, st, fr)
            if mp is None:
                return None
            p, r, c = mp
            args = [self.ev(a, st, fr) for a in e["a"]]
            if op in ("()", "[]") or n in ("coeff", "coeffRef"):
                sq = self.seqn_idx(args, r, c)
                if sq is not None:
                    return self.subplace(p, r, c, sq[0], sq[1])
                if all(isinstance(a, Poly) and a.is_const() for a in args):
                    ii = [int(a.cval()) for a in args]
                    f = ii[0] if len(ii) == 1 else ii[0] * c + ii[1]
                    if 0 <= f < r * c:
                        return self.subplace(p, r, c, [f], None)
                    return None
                if p.sel is None:
                    # symbolic index: element path under the matrix
                    return Place(p.path + tuple(("[", self.num(a)) for a in args), e["t"])
                return None
            b = self.block_idx(n, e.get("ta"), args, r, c)
            if b is None:
                return None
            return self.subplace(p, r, c, b[0], b[1])
        if o is not None and (qn.startswith("std::vector") or qn.startswith("std::array") or qn.startswith("std::deque")):
            if op == "[]" or n == "at":
                base = self.lv(o, st, fr)
                if base is None:
                    bp = self.objpath(o, st, fr, False)
                    base = Place(bp, o["t"])
                i = self.num(self.ev(e["a"][0], st, fr))
                k = tinfo(base.ty or o["t"])
                self.index_event(base.path, i, k, st, fr, e)
                return Place(base.path + (("[", i),), k[1] if k[0] in ("vec", "arr") else e["t"])
            if n in ("front", "back"):
                base = self.lv(o, st, fr)
                if base is None:
                    return None
                if n == "front":
                    i = ZERO
                else:
                    k = tinfo(base.ty)
                    i = (C(k[2]) if k[0] == "arr" else self.num(self.read(st, base.path + ((".", "#size"),), "int"))) - ONE
                return Place(base.path + (("[", i),), e["t"])
        if o is not None and op in ("*", "->") and (qn.startswith("std::shared_ptr") or qn.startswith("std::unique_ptr") or qn.startswith("std::__shared_ptr") or "SmartPointer" in qn):
            return Place(self.derefpath(self.ev(o, st, fr), e["t"]), e["t"])
        if o is not None and op == "*" and "iterator" in qn:
            v = self.ev(o, st, fr)
            if isinstance(v, Ptr):
                return Place(v.v[0], e["t"])
            return None
        if op in ("=", "+=", "-=", "*=", "/=") and o is not None:
            self.ev(e, st, fr)
            return self.lv(o, st, fr)
        if e.get("in"):
            f = self.resolve(e, st, fr)
            if f is not None and f["rt"].endswith("&"):
                r = self.do_call(e, st, fr, want_place=True)
                if isinstance(r, Place):
                    return r
                if r is not None:
                    self.n += 1
                    path = (("V", "tmpr", self.n),)
                    self.write(st, path, r, e["t"])
                    return Place(path, e["t"])
        return None

    # ---------------- expressions
    def ev(self, e, st, fr):
        if e is None:
            return UNDEF
        self.nodes += 1
        if self.nodes > self.budget or self.deadline and time.time() > self.deadline:
            raise Limit("budget")
        cv = e.get("cv")
        if cv is not None and e["k"] not in ("call",):
            return C(cv) if tinfo(e["t"])[0] != "bool" else (TRUE if cv else FALSE)
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.unknown.append(("expr " + e["k"] + " " + str(e.get("cn")), fr.fn["qn"], e.get("l")))
            return self.sym(self.fresh(e["k"]), e.get("t") or "?")
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return C(int(e.get("v", "0")))

    def e_flt(self, e, st, fr):
        return C(Fraction(e["v"]).limit_denominator(10**9) if "e" not in e["v"] and "." in e["v"] and len(e["v"]) > 16 else Fraction(e["v"]))

    def e_null(self, e, st, fr):
        return NULL

    def e_str(self, e, st, fr):
        return Str(e["v"])

    def e_this(self, e, st, fr):
        return Ptr(fr_this(fr))

    def e_zero(self, e, st, fr):
        k = tinfo(e["t"])
        if k[0] in ("int", "flt"):
            return ZERO
        if k[0] == "bool":
            return FALSE
        if k[0] == "ptr":
            return NULL
        if k[0] == "mat":
            return Mat(k[1], k[2], (ZERO,) * (k[1] * k[2]))
        return Agg(("zero",), ())

    def e_sizeof(self, e, st, fr):
        return A("sizeof", e["at"])

    def e_nop(self, e, st, fr):
        return UNDEF

    def e_ref(self, e, st, fr):
        if e["dk"] == "fn":
            return Op(("fn", e["fn"], e["qn"]))
        p = self.lv(e, st, fr)
        if p is None:
            return self.sym(("ref", e["n"]), e["t"])
        if p.sel is None and tinfo(p.ty or e["t"])[0] == "arr" and tinfo(e["t"])[0] == "arr":
            return Ptr(p.path + (("[", ZERO),))
        if p.path[0][0] == "G" and p.sel is None:
            v = self.global_const(e)
            if v is not None:
                return v
        return self.rdplace(st, p)

    def global_const(self, e):
        g = self.P.globals.get(e.get("gid"))
        if g and g.get("const") and g.get("i"):
            k = tinfo(g["t"])
            if k[0] in ("int", "flt", "bool"):
                try:
                    return self.ev(g["i"], State(), Frame({"qn": "<global>", "fn": "", "n": "", "rt": ""}))
                except Exception:
                    return None
        return None

    def e_mem(self, e, st, fr):
        p = self.lv(e, st, fr)
        if p is None:
            return self.sym(("mem", e["n"]), e["t"])
        if tinfo(e["t"])[0] == "arr":
            return Ptr(p.path + (("[", ZERO),))
        if self.on_read:
            self.on_read(self, p, st, fr, e)
        return self.rdplace(st, p)

    def e_sub(self, e, st, fr):
        p = self.lv(e, st, fr)
        if p is None:
            return self.sym(self.fresh("sub"), e["t"])
        if tinfo(e["t"])[0] == "arr":
            return Ptr(p.path + (("[", ZERO),))
        return self.rdplace(st, p)

    def e_icast(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        ck = e["ck"]
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.cond(v)
        if ck == "FloatingToIntegral":
            return self.trunc(self.num(v))
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast"):
            return self.num(v) if isinstance(v, (Poly, F)) else v
        return v

    def trunc(self, p):
        if p.is_const():
            return C(int(p.cval()))
        from poly import _int_poly
        if _int_poly(p):
            return p
        a = ("trunc", p)
        mark_int(a)
        return Poly.atom(a)

    def e_cast(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        k = tinfo(e["t"])
        if e["ck"] in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.cond(v)
        if k[0] == "int" and isinstance(v, Poly) and tinfo(e["e"]["t"])[0] == "flt":
            return self.trunc(v)
        if k[0] in ("int", "flt") and isinstance(v, F):
            return self.num(v)
        if k[0] == "mat" and isinstance(v, Mat):
            return self.coerce(v, e["t"])
        if k[0] == "str":
            return v
        if k[0] == "void":
            return v
        if k[0] == "ptr" and isinstance(v, Poly) and v == ZERO:
            return NULL
        return v

    def e_list(self, e, st, fr):
        vs = [self.ev(a, st, fr) for a in e["a"]]
        k = tinfo(e["t"])
        if k[0] == "mat":
            if len(vs) == 1 and isinstance(vs[0], Mat):
                return vs[0]
            if len(vs) == k[1] * k[2]:
                return Mat(k[1], k[2], tuple(self.num(v) for v in vs))
            if not vs:
                return Mat(k[1], k[2], (ZERO,) * (k[1] * k[2]))
        if k[0] in ("int", "flt"):
            return self.num(vs[0]) if vs else ZERO
        if k[0] == "bool":
            return self.cond(vs[0]) if vs else FALSE
        if k[0] == "ptr":
            return vs[0] if vs else NULL
        if k[0] == "cls":
            c = self.P.classes.get(k[1])
            if c and not c["bases"] and len(c["fields"]) >= len(vs):
                return Agg(("zero",), tuple((((".", f["n"]),), v) for f, v in zip(c["fields"], vs)))
        if k[0] == "arr" or k[0] == "vec" or k[0] == "cls":
            items = tuple((((("[", C(i)),)), v) for i, v in enumerate(vs))
            if k[0] == "vec" or "initializer_list" in e["t"]:
                items += ((((".", "#size"),), C(len(vs))),)
            return Agg(("empty",) if k[0] == "vec" else ("zero",), items)
        return Op(("list", tuple(vs)))

    def e_lambda(self, e, st, fr):
        return Clo(e["fn"], id(fr), (e, fr))

    def e_new(self, e, st, fr):
        self.n += 1
        path = (("H", e.get("l"), self.n),)
        k = tinfo(e["at"])
        if k[0] == "cls":
            self.dyn[path] = k[1]
            i = e.get("init")
            if i is not None and i["k"] == "ctor" and i.get("fn") in self.P.funcs:
                g = self.P.funcs[i["fn"]]
                if self.hook_call(g["qn"], i, st, fr) is None and not self.opaque(g["qn"], g) and self.can_inline(g):
                    self.write(st, path, Agg(("undef", k[1]), ()), e["at"])
                    self.invoke(g, path, i["a"], st, fr, i)
                else:
                    args = tuple(self.ev(a, st, fr) for a in i["a"])
                    self.write(st, path, Agg(("newobj", k[1], args), ()), e["at"])
            elif i is not None:
                self.write(st, path, self.ev(i, st, fr), e["at"])
            else:
                self.write(st, path, Agg(("undef", k[1]), ()), e["at"])
            st.ev = st.ev + [("new", k[1], path)]
            return Ptr(path)
        if e.get("arr"):
            n = self.ev(e["size"], st, fr) if e.get("size") else UNDEF
            st.ev = st.ev + [("new[]", e["at"], path)]
            return Ptr(path + (("[", ZERO),))
        if e.get("init"):
            self.write(st, path, self.ev(e["init"], st, fr), e["at"])
        return Ptr(path)

    def e_delete(self, e, st, fr):
        v = self.ev(e["e"], st, fr)
        st.ev = st.ev + [("delete", v)]
        return UNDEF

    def e_throw(self, e, st, fr):
        self.throw(e, st, fr)
        raise Terminated()

    def e_other(self, e, st, fr):
        for a in e.get("a", ()):
            self.ev(a, st, fr)
        return self.sym(self.fresh("other"), e["t"])

    def e_arrinit(self, e, st, fr):
        return self.ev(e["e"], st, fr) if e.get("e") else UNDEF

    def e_memfn(self, e, st, fr):
        return Op(("memfn", e["n"]))

    def e_cond(self, e, st, fr):
        c = self.simp(st, self.cond(self.ev(e["c"], st, fr)))
        if c.k == "T":
            return self.ev(e["x"], st, fr)
        if c.k == "N":
            return self.ev(e["y"], st, fr)
        out = {}

        def mk(name, x):
            def f(s):
                try:
                    out[name] = self.ev(x, s, fr)
                except Terminated:
                    return None
                return s
            return f
        r = self.branch(c, st, fr, mk("x", e["x"]), mk("y", e["y"]))
        if r is None:
            raise Terminated()
        self.absorb(st, r)
        if "x" not in out:
            return out["y"]
        if "y" not in out:
            return out["x"]
        return self.join_val(c, out["x"], out["y"])

    def absorb(self, st, r):
        if r is st:
            return
        st.mem, st.pc, st.ev, st.loopw, st.facts = r.mem, r.pc, r.ev, r.loopw, r.facts

    def e_un(self, e, st, fr):
        op = e["op"]
        if op == "&":
            p = self.lv(e["e"], st, fr)
            if p is None:
                x = strip(e["e"])
                if x["k"] == "ref" and x["dk"] == "fn":
                    return Op(("fn", x["fn"], x["qn"]))
                return PtrT(self.fresh("addr"))
            if p.sel is not None:
                if p.shape is None:
                    return Ptr(p.path + (("[", C(p.sel[0])),))
                return PtrT(self.fresh("addr"))
            return Ptr(p.path)
        if op == "*":
            p = self.lv(e, st, fr)
            if p is None:
                return self.sym(self.fresh("deref"), e["t"])
            if tinfo(e["t"])[0] == "arr":
                return Ptr(p.path + (("[", ZERO),))
            return self.rdplace(st, p)
        if op in ("++", "--"):
            p = self.lv(e["e"], st, fr)
            if p is None:
                return self.sym(self.fresh("inc"), e["t"])
            old = self.rdplace(st, p)
            d = ONE if op == "++" else -ONE
            if isinstance(old, (Ptr, PtrT)):
                new = Ptr(self.ptr_elem(old, d))
            else:
                new = self.num(old) + d
            self.wrplace(st, p, new)
            return old if e.get("post") else new
        v = self.ev(e["e"], st, fr)
        if op == "!":
            return f_not(self.cond(v))
        if op == "-":
            return -self.num(v)
        if op == "+":
            return self.num(v)
        if op == "~":
            return self.sym(("bnot", v), e["t"])
        return self.sym(("un", op, v), e["t"])

    def isint(self, e):
        return tinfo(e["t"])[0] in ("int", "bool")

    def compare(self, op, a, b, integer):
        if isinstance(a, (Ptr, PtrT, Null, IteV, Op, Agg, Str)) or isinstance(b, (Ptr, PtrT, Null, IteV, Op, Agg, Str)):
            r = self.peq(a, b)
            if op == "==":
                return r
            if op == "!=":
                return f_not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.v[0][:-1] == b.v[0][:-1] and a.v[0][-1][0] == "[" == b.v[0][-1][0]:
                a, b = a.v[0][-1][1], b.v[0][-1][1]
                integer = True
            else:
                return f_atom(("cmp", op, a, b))
        if isinstance(a, F) and isinstance(b, F) and op in ("==", "!="):
            r = f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
            return r if op == "==" else f_not(r)
        a, b = self.num(a), self.num(b)
        d = a - b
        if op == "==":
            return f_eq0(d)
        if op == "!=":
            return f_not(f_eq0(d))
        if op == "<":
            return f_gt0(-d, integer)
        if op == ">":
            return f_gt0(d, integer)
        if op == "<=":
            return f_ge0(-d, integer)
        if op == ">=":
            return f_ge0(d, integer)

    def peq(self, a, b):
        if isinstance(a, IteV):
            return f_or(f_and(a.v[0], self.peq(a.v[1], b)), f_and(f_not(a.v[0]), self.peq(a.v[2], b)))
        if isinstance(b, IteV):
            return self.peq(b, a)
        if isinstance(a, Poly) and a == ZERO:
            a = NULL
        if isinstance(b, Poly) and b == ZERO:
            b = NULL
        if a == b and not isinstance(a, (Agg, Op)):
            return TRUE
        if isinstance(a, Null) or isinstance(b, Null):
            o = b if isinstance(a, Null) else a
            if isinstance(o, Ptr):
                return FALSE
            if isinstance(o, PtrT):
                return f_atom(("isnull", o.v[0]))
            return f_atom(("isnullv", o))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.v[0][:-1] == b.v[0][:-1] and a.v[0][-1][0] == "[" == b.v[0][-1][0]:
                return f_eq0(a.v[0][-1][1] - b.v[0][-1][1])
            if a.v[0][0][0] in ("H", "V") and b.v[0][0][0] in ("H", "V"):
                return FALSE if a.v[0] != b.v[0] else TRUE
        if isinstance(a, Str) and isinstance(b, Str):
            return TRUE if a == b else FALSE
        x, y = sorted((a, b), key=repr)
        return f_atom(("peq", x, y))

    def arith(self, op, a, b, integer):
        if op in ("+", "-") and isinstance(a, (Ptr, PtrT)) and isinstance(b, (Poly, F)):
            i = self.num(b)
            return Ptr(self.ptr_elem(a, i if op == "+" else -i))
        if op == "+" and isinstance(b, (Ptr, PtrT)) and isinstance(a, (Poly, F)):
            return Ptr(self.ptr_elem(b, self.num(a)))
        if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr):
            p, q = a.v[0], b.v[0]
            if p[:-1] == q[:-1] and p[-1][0] == "[" == q[-1][0]:
                return p[-1][1] - q[-1][1]
            return self.sym(("ptrdiff", a, b), ("int",))
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if integer:
                return self.idiv(a, b)
            return pdiv(a, b)
        if op == "%":
            if a.is_const() and b.is_const() and b.cval():
                x, y = int(a.cval()), int(b.cval())
                return C(x - int(Fraction(x, y)) * y)
            return self.sym(("mod", a, b), ("int",))
        if op in ("&", "|", "^", "<<", ">>"):
            if a.is_const() and b.is_const():
                x, y = int(a.cval()), int(b.cval())
                try:
                    return C({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if 0 <= y < 70 else 0, ">>": x >> y if 0 <= y else 0}[op])
                except ValueError:
                    pass
            return self.sym(("bit", op, a, b), ("int",))
        return self.sym(("ar", op, a, b), ("flt",))

    def idiv(self, a, b):
        if a.is_const() and b.is_const() and b.cval():
            q = a.cval() / b.cval()
            return C(int(q))
        if b.is_const() and b.cval() and all((c / b.cval()).denominator == 1 for c in a.t.values()):
            return a.scale(1 / b.cval())
        t = ("idiv", a, b)
        mark_int(t)
        return Poly.atom(t)

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.simp(st, self.cond(self.ev(e["x"], st, fr)))
            if op == "&&" and a.k == "N":
                return FALSE
            if op == "||" and a.k == "T":
                return TRUE
            # side effects of the right operand are conditional
            if a.k in ("T", "N"):
                return self.cond(self.ev(e["y"], st, fr))
            out = {}
            g = a if op == "&&" else f_not(a)

            def f(s):
                try:
                    out["v"] = self.cond(self.ev(e["y"], s, fr))
                except Terminated:
                    return None
                return s
            r = self.branch(g, st, fr, f, lambda s: s)
            if r is None:
                raise Terminated()
            pc, facts = st.pc, st.facts
            self.absorb(st, r)
            b = out.get("v", FALSE)
            st.pc, st.facts = pc, facts
            return f_and(a, b) if op == "&&" else f_or(a, b)
        if op == ",":
            self.ev(e["x"], st, fr)
            return self.ev(e["y"], st, fr)
        a = self.ev(e["x"], st, fr)
        b = self.ev(e["y"], st, fr)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, self.isint(e["x"]) and self.isint(e["y"]))
        return self.arith(op, a, b, self.isint(e))

    def e_asg(self, e, st, fr):
        op = e["op"]
        p = self.lv(e["x"], st, fr)
        if p is None and op == "=" and strip(e["x"])["k"] == "cond":
            x = strip(e["x"])
            v = self.ev(e["y"], st, fr)
            ps = [self.lv(x[k], st, fr) for k in "xy"]
            if None not in ps:
                r = self.branch(self.cond(self.ev(x["c"], st, fr)), st, fr, lambda s: (self.wrplace(s, ps[0], v), s)[1], lambda s: (self.wrplace(s, ps[1], v), s)[1])
                self.absorb(st, r)
                return v
        b = self.ev(e["y"], st, fr)
        if p is None:
            self.unknown.append(("assign", fr.fn["qn"], e.get("l")))
            LOST.append((fr.fn["qn"], e.get("l")))
            return b
        if op == "=":
            v = b
        else:
            a = self.rdplace(st, p)
            v = self.arith(op[:-1], a, b, self.isint(e["x"]) and self.isint(e["y"]))
            if tinfo(e["x"]["t"])[0] == "int" and tinfo(e["y"]["t"])[0] == "flt":
                v = self.trunc(v) if isinstance(v, Poly) else v
        self.assign(st, p, v, e, fr)
        return v

    def assign(self, st, p, v, e, fr):
        self.wrplace(st, p, v)

    # ---------------- construction
    def e_ctor(self, e, st, fr):
        k = tinfo(e["t"])
        a = e["a"]
        if k[0] == "mat":
            vs = [self.ev(x, st, fr) for x in a]
            if len(vs) == 1 and isinstance(vs[0], Mat):
                m = vs[0]
                return m if (m.r, m.c) == (k[1], k[2]) else self.coerce(m, e["t"])
            n = k[1] * k[2]
            if len(vs) == n and all(isinstance(v, (Poly, F)) for v in vs):
                return Mat(k[1], k[2], tuple(self.num(v) for v in vs))
            if len(vs) == 1 and isinstance(vs[0], Agg):
                els = [self.project(vs[0], (("[", C(i)),), ("flt",)) for i in range(n)]
                return Mat(k[1], k[2], tuple(self.num(x) for x in els))
            if len(vs) == 1 and isinstance(vs[0], (Ptr, PtrT)):
                els = [self.read(st, self.ptr_elem(vs[0], C(i)), "double") for i in range(n)]
                return Mat(k[1], k[2], tuple(self.num(x) for x in els))
            if not vs:
                return Mat(k[1], k[2], tuple(A("undef", (e.get("l"), i)) for i in range(n)))
            return self.sym(("ctor", e["qn"], tuple(vs)), k)
        if k[0] == "cls" and e["t"].startswith("Eigen::AngleAxis<") and len(a) == 2:
            # a rotation given by angle and (unit) axis, as its quaternion
            vs = [self.ev(x, st, fr) for x in a]
            if isinstance(vs[1], Mat) and len(vs[1].e) == 3 and isinstance(vs[0], (Poly, F)):
                h = self.num(vs[0]) * C(Fraction(1, 2))
                s, c = self.math("sin", [h]), self.math("cos", [h])
                return Quat(tuple(s * x for x in vs[1].e) + (c,))
            return Agg(("ctor", e["qn"], tuple(vs)), ())
        if k[0] == "quat":
            vs = [self.ev(x, st, fr) for x in a]
            if len(vs) == 4:
                w, x, y, z = [self.num(v) for v in vs]
                return Quat((x, y, z, w))
            if len(vs) == 1 and isinstance(vs[0], Quat):
                return vs[0]
            if len(vs) == 1 and isinstance(vs[0], Mat) and len(vs[0].e) == 4:
                return Quat(vs[0].e)
            return self.sym(("quat", tuple(vs)), k)
        if e.get("copy") and len(a) == 1:
            return self.ev(a[0], st, fr)
        if k[0] == "cls" and e["t"].startswith(("std::pair<", "std::tuple<")):
            vs = [self.ev(x, st, fr) for x in a]
            if len(vs) == 1 and len(split_targs(e["t"][e["t"].index("<") + 1:-1])) > 1:
                return vs[0]
            if len(vs) == len(split_targs(e["t"][e["t"].index("<") + 1:-1])):
                return self.tup(e["t"].startswith("std::pair<"), vs)
        if k[0] == "vec":
            vs = [self.ev(x, st, fr) for x in a]
            vs2 = [v for v in vs if not (isinstance(v, Op) or (isinstance(v, Agg) and v.v[0] == ("alloc",)))]
            if not a:
                return Agg(("empty",), ())
            if isinstance(vs[0], Agg) and len(vs) <= 2 and "initializer_list" in (a[0].get("t") or ""):
                return vs[0]
            if len(vs) >= 1 and isinstance(vs[0], Agg):
                return vs[0]
            if isinstance(vs[0], (Poly, F)) and tinfo(a[0]["t"])[0] == "int":
                n = self.num(vs[0])
                val = vs[1] if len(vs) > 1 and len(a) > 1 and "allocator" not in a[1]["t"] else self.zero_of(k[1])
                return Agg(("empty",), (((("[*", ZERO, n),), val), (((".", "#size"),), n)))
            if len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
                p, q = vs[0].v[0], vs[1].v[0]
                if p[:-1] == q[:-1] and p[-1][0] == "[" == q[-1][0]:
                    n = q[-1][1] - p[-1][1]
                    return Agg(("slice", self.read(st, p[:-1], e["t"]), p[-1][1]), ((((".", "#size"),), n),))
            return Agg(("ctor", tuple(vs)), ())
        if k[0] == "str":
            vs = [self.ev(x, st, fr) for x in a]
            if not vs:
                return Str("")
            return vs[0]
        if k[0] == "ptr":
            vs = [self.ev(x, st, fr) for x in a]
            return vs[0] if vs else NULL
        g = self.P.funcs.get(e.get("fn"))
        if g is not None and not self.opaque(g["qn"], g) and self.can_inline(g) and not g.get("defaulted"):
            self.n += 1
            path = (("V", "obj", self.n),)
            self.write(st, path, Agg(("undef", e["qn"]), ()), e["t"])
            self.invoke(g, path, a, st, fr, e)
            return self.read(st, path, e["t"])
        vs = tuple(self.ev(x, st, fr) for x in a)
        if e.get("defc"):
            return Agg(("undef", e["qn"]), self.default_fields(e["t"], st, fr))
        return Agg(("ctor", e["qn"], vs), ())

    def default_fields(self, t, st, fr):
        out = []
        for r, f in self.P.all_fields(t):
            k = tinfo(f["t"])
            if f.get("i") is not None:
                out.append((((".", f["n"]),), self.ev(f["i"], st, fr)))
            elif k[0] in ("vec", "str"):
                out.append((((".", f["n"]),), self.default(f["t"])))
        return tuple(out)

    def zero_of(self, t):
        k = tinfo(t)
        if k[0] in ("int", "flt"):
            return ZERO
        if k[0] == "bool":
            return FALSE
        if k[0] == "vec":
            return Agg(("empty",), ())
        if k[0] == "ptr":
            return NULL
        return self.default(t)

    # ---------------- calls
    def can_inline(self, f):
        return len(self.stack) < self.max_depth and self.stack.count(f["fn"]) < 1

    def resolve(self, e, st, fr):
        fid = e.get("fn")
        if not fid:
            return None
        if e.get("virt") and not e.get("nonvirt"):
            cands = [x for x in self.P.all_overriders(fid) if x in self.P.funcs]
            o = e.get("o")
            path = None
            if o is not None:
                if o["k"] == "this":
                    path = fr_this(fr)
                else:
                    try:
                        path = self.objpath(o, st, fr, e.get("arrow"))
                    except Terminated:
                        path = None
            cls = self.dyn.get(path)
            if cls:
                best = self.virtual_impl(fid, cls)
                if best:
                    return self.P.funcs[best]
            cands = [c for c in cands if not self.P.funcs[c].get("pure")]
            if len(cands) == 1:
                return self.P.funcs[cands[0]]
            return None
        return self.P.funcs.get(fid)

    def virtual_impl(self, fid, cls):
        cands = set(self.P.all_overriders(fid))
        for c in self.P.bases(cls):
            r = self.P.classes.get(c)
            if not r:
                continue
            for x in cands:
                f = self.P.funcs.get(x)
                if f and f.get("cls") and self._cls_of(f) == r["tn"]:
                    return x
        return None

    def _cls_of(self, f):
        # class type name of a method (qualified name, with template args)
        return f["cls"]

    def hook_call(self, qn, e, st, fr):
        h = self.hooks.get(qn)
        if h is None and "n" in e:
            h = self.hooks.get("*::" + (e.get("n") or ""))
        if h is not None:
            return h(self, e, st, fr)
        return None

    def e_call(self, e, st, fr):
        r = self.do_call(e, st, fr)
        if isinstance(r, Place):
            return self.rdplace(st, r)
        return r

    def do_call(self, e, st, fr, want_place=False):
        qn = e.get("qn", "")
        h = self.hook_call(qn, e, st, fr)
        if h is not None:
            return h
        if not e.get("in"):
            r = self.builtin(e, st, fr)
            if r is not None:
                return r
        else:
            f = self.resolve(e, st, fr)
            if f is not None and f.get("lambda") and e.get("o") is not None:
                cv = self.ev(e["o"], st, fr)
                if isinstance(cv, Clo):
                    return self.closure_call(cv, e["a"], st, fr)
                f = None
            if f is not None and f.get("defaulted") and f["n"] == "operator=":
                f = None
            if e.get("op") == "=" and f is None:
                p = self.lv(e["o"], st, fr)
                v = self.ev(e["a"][0], st, fr)
                if p is not None:
                    self.wrplace(st, p, v)
                return v
            if f is not None and not self.opaque(f["qn"], f) and self.can_inline(f) and (self.inline is None or self.inline(f)):
                this = None
                if f.get("cls") and not f.get("smethod") and e.get("o") is not None:
                    o = e["o"]
                    this = self.objpath(o, st, fr, e.get("arrow"))
                return self.invoke(f, this, e["a"], st, fr, e)
        return self.opaque_call(e, st, fr)

    def closure_call(self, clo, argnodes, st, fr, argvals=None):
        e, cfr = clo.v[2]
        if len(self.stack) >= self.max_depth:
            return Op(self.fresh("clo"))
        g = {"fn": e["fn"], "qn": cfr.fn["qn"] + "::<lambda>", "n": "<lambda>", "rt": "", "lambda": True, "params": e["params"], "body": e["body"],
             "file": cfr.fn.get("file"), "l": e.get("l")}
        nf = Frame(g, cfr.this, parent=cfr, depth=fr.depth + 1)
        self.bind_args(g, nf, argnodes, st, fr, argvals)
        return self.finish(g, nf, st)

    def invoke(self, f, this, argnodes, st, fr, node):
        nf = Frame(f, this, depth=fr.depth + 1)
        self.bind_args(f, nf, argnodes, st, fr)
        return self.finish(f, nf, st)

    def bind_args(self, f, nf, argnodes, st, fr, argvals=None):
        for i, p in enumerate(f["params"]):
            a = argnodes[i] if i < len(argnodes) else None
            ty = p["t"]
            if argvals is not None and i < len(argvals):
                av = argvals[i]
                if isinstance(av, Place):
                    nf.vars[p["id"]] = av
                    continue
                self.n += 1
                path = (("V", p["n"], self.n),)
                nf.vars[p["id"]] = Place(path, ty)
                self.write(st, path, av, ty)
                continue
            if ty.endswith("&") and a is not None:
                pl = self.lv(a, st, fr)
                if pl is not None:
                    nf.vars[p["id"]] = pl
                    continue
                if not ty.startswith("const ") and not ty.endswith("&&") and lvalue(a):
                    LOST.append((fr.fn["qn"], p["n"]))
            self.n += 1
            path = (("V", p["n"], self.n),)
            nf.vars[p["id"]] = Place(path, ty)
            v = self.ev(a, st, fr) if a is not None else UNDEF
            self.write(st, path, self.coerce(v, ty), ty)

    def finish(self, f, nf, st):
        inner = st.copy()
        n0 = len(st.pc)
        pc0, facts0 = st.pc, st.facts
        s, v = self.run(f, nf, inner)
        if s is None:
            raise Terminated()
        self.absorb(st, s)
        # conditions under which the callee returns normally are kept as facts
        return v if v is not None else UNDEF

    def argvals(self, e, st, fr):
        return [self.ev(a, st, fr) for a in e["a"]]

    def opaque_call(self, e, st, fr):
        qn = e.get("qn") or "?"
        if e.get("callee") is not None:
            cv = self.ev(e["callee"], st, fr)
            if isinstance(cv, Clo):
                return self.closure_call(cv, e["a"], st, fr)
        if e.get("op") == "()" and e.get("o") is not None:
            cv = self.ev(e["o"], st, fr)
            if isinstance(cv, Clo):
                return self.closure_call(cv, e["a"], st, fr)
        args = []
        rp = e.get("rp") or []
        outs = []
        for i, a in enumerate(e["a"]):
            v = self.ev(a, st, fr)
            args.append(v)
            if i < len(rp) and rp[i] in (2, 5):
                if rp[i] == 2:
                    p = self.lv(a, st, fr)
                    if p is not None:
                        outs.append((i, p))
                elif isinstance(v, (Ptr, PtrT)):
                    pt = tinfo(strip(a).get("t") or "")
                    outs.append((i, v))
        for c in args:
            if isinstance(c, Clo) and not e.get("in"):
                self.maybe_runs(c, e, st, fr)
        obj = None
        if e.get("o") is not None:
            o = e["o"]
            if o["k"] == "this":
                obj = Ptr(fr_this(fr))
            elif e.get("arrow"):
                obj = self.ev(o, st, fr)
            else:
                p = self.lv(o, st, fr)
                obj = Ptr(p.path) if p is not None and p.sel is None and e.get("in") else self.ev(o, st, fr)
        term = ("call", qn, tuple(e.get("ta", ())) if all(type(x) in (int, str) for x in e.get("ta", ())) else (), obj, tuple(args))
        if e.get("in"):
            st.ev = st.ev + [("call", qn, obj, tuple(args), e.get("l"), fr.fn["qn"])]
        for i, p in outs:
            if isinstance(p, Place):
                self.wrplace(st, p, self.sym(("out", i, term), p.ty if p.sel is None else (("mat",) + p.shape if p.shape else ("flt",))))
            elif isinstance(p, Ptr):
                ty = self.types.get(p.v[0])
                self.write(st, p.v[0], self.sym(("out", i, term), ty or "?"))
        if e.get("in") and not e.get("const") and e.get("o") is not None and not self.pure_opaque(qn):
            self.havoc_obj(e, obj, st, fr, term)
        return self.sym(term, e["t"])

    def maybe_runs(self, clo, e, st, fr):
        """a library function may call the closure any number of times with anything"""
        ps = clo.v[2][0]["params"]

        def body(x, f):
            self.closure_call(clo, [], x, f, [self.sym(self.fresh("cloarg"), p["t"].rstrip("& ")) for p in ps])
        try:
            r = self.loop(st.copy(), fr, {"k": "for", "l": e.get("l")}, None, None, {"k": "pyblk", "f": body}, Poly.atom(("v", ("trips", e.get("l"), fr.fn["n"]))), lambda x, it: x)
        except Terminated:
            r = None
        if r is not None:
            self.absorb(st, r)

    def pure_opaque(self, qn):
        return True

    def havoc_obj(self, e, obj, st, fr, term):
        pass

    # ---------------- library functions
    def builtin(self, e, st, fr):
        qn = e.get("qn", "")
        n = e.get("n") or ""
        if qn.startswith("Eigen::"):
            return self.eigen(e, st, fr, qn, n)
        if n == "to_string" and qn.startswith("std::") and len(e["a"]) == 1 and "double" not in (strip(e["a"][0]).get("t") or "") and "float" not in (strip(e["a"][0]).get("t") or ""):
            v = self.ev(e["a"][0], st, fr)
            if isinstance(v, Poly) and v.is_const() and v.cval().denominator == 1:
                return Str(str(int(v.cval())))
        if qn.startswith("std::"):
            return self.stdlib(e, st, fr, qn, n)
        if n in MATH1 or n in MATH2:
            return self.math(n, self.argvals(e, st, fr))
        return None

    def math(self, n, args):
        n = n.rstrip("f") if n in ("sqrtf", "sinf", "cosf", "powf", "expf", "fabsf", "tanf", "logf") else n
        a = [self.num(x) for x in args]
        if n == "sqrt":
            return psqrt(a[0])
        if n == "pow":
            if a[1].is_const() and a[1].cval().denominator == 1 and abs(a[1].cval()) <= 8:
                return ppow(a[0], int(a[1].cval()))
            if a[1].is_const() and a[1].cval() == Fraction(1, 2):
                return psqrt(a[0])
            return Poly.atom(("fn", "pow", a[0], a[1]))
        if n in ("fabs", "abs"):
            if a[0].is_const():
                return C(abs(a[0].cval()))
            m, c = lead(a[0])
            x = a[0] if c > 0 else -a[0]
            return Poly.atom(("fn", "abs", x))
        if n in ("fmin", "fmax", "min", "max"):
            n = n.replace("f", "")
            if a[0] == a[1]:
                return a[0]
            if a[0].is_const() and a[1].is_const():
                return C((min if n == "min" else max)(a[0].cval(), a[1].cval()))
            d = a[0] - a[1]
            if d.is_const():
                big, small = (a[0], a[1]) if d.cval() > 0 else (a[1], a[0])
                return big if n == "max" else small
            t = ("fn", n, frozenset((a[0], a[1])))
            from poly import _int_poly
            if _int_poly(a[0]) and _int_poly(a[1]):
                mark_int(t)
            return Poly.atom(t)
        if n in ("sin", "tan", "sinh", "tanh", "asin", "atan"):
            if not a[0].t:
                return ZERO
            m, c = lead(a[0])
            if c < 0:
                return -Poly.atom(("fn", n, -a[0]))
            return Poly.atom(("fn", n, a[0]))
        if n in ("cos", "cosh"):
            if not a[0].t:
                return ONE
            m, c = lead(a[0])
            return Poly.atom(("fn", n, a[0] if c > 0 else -a[0]))
        if n == "exp" and not a[0].t:
            return ONE
        if n in ("floor", "ceil", "round", "trunc"):
            if a[0].is_const():
                import math as M
                return C({"floor": M.floor, "ceil": M.ceil, "round": round, "trunc": M.trunc}[n](a[0].cval()))
            t = ("fn", n, a[0])
            mark_int(t)
            return Poly.atom(t)
        return Poly.atom(("fn", n) + tuple(a))

    def tomat(self, v, t=None):
        if isinstance(v, Mat):
            return v
        return None

    def eigen(self, e, st, fr, qn, n):
        op = e.get("op")
        o = e.get("o")
        # assignment-like
        if o is not None and op in ("=", "+=", "-=", "*=", "/="):
            p = self.lv(o, st, fr)
            b = self.ev(e["a"][0], st, fr)
            if op == "=":
                v = b
            else:
                a = self.rdplace(st, p) if p is not None else self.ev(o, st, fr)
                v = self.matop(op[:-1], a, b)
                if v is None:
                    v = self.sym(("eop", op, a, b), tinfo(p.ty) if p is not None and p.sel is None else ("cls", "?"))
            if p is None:
                self.unknown.append(("eigen assign", fr.fn["qn"], e.get("l")))
                return v
            if op == "=" and p.sel is None and isinstance(v, Mat) and tinfo(p.ty)[0] == "mat":
                v = self.coerce(v, p.ty)
            self.assign(st, p, v, e, fr)
            return v
        if op == "<<" and o is not None or "CommaInitializer" in qn:
            return self.comma(e, st, fr)
        if o is None:
            args = self.argvals(e, st, fr)
            if op and len(args) == 2:
                r = self.matop(op, args[0], args[1])
                if r is not None:
                    return r
            if op == "-" and len(args) == 1 and isinstance(args[0], Mat):
                return self.mneg(args[0])
            if n == "seqN" and len(args) == 2:
                return Op(("seqN", args[0], args[1]))
            r = self.static_eigen(e, n, args)
            if r is not None:
                return r
            return self.sym(("call", qn, (), None, tuple(args)), e["t"])
        if n in ("setZero", "setIdentity", "setOnes", "setConstant", "normalize", "fill"):
            mp = self.getmat_place(o, st, fr)
            if mp is None:
                return self.sym(self.fresh(n), e["t"])
            p, r, c = mp
            if n == "setZero":
                v = Mat(r, c, (ZERO,) * (r * c))
            elif n == "setOnes":
                v = Mat(r, c, (ONE,) * (r * c))
            elif n == "setIdentity":
                v = self.eye(r, c)
            elif n == "normalize":
                old = self.rdplace(st, p)
                if isinstance(old, Quat):
                    nn = psqrt(self.sumsq(old.e))
                    v = Quat(tuple(pdiv(x, nn) for x in old.e))
                else:
                    v = self.normalized(old)
            else:
                a = self.num(self.ev(e["a"][0], st, fr))
                v = Mat(r, c, (a,) * (r * c))
            self.wrplace(st, p, v)
            return v
        v = self.ev(o, st, fr)
        args = self.argvals(e, st, fr)
        if isinstance(v, Quat):
            return self.quat_method(e, n, op, v, args)
        if isinstance(v, Mat):
            r = self.mat_method(e, n, op, v, args)
            if r is not None:
                return r
        if isinstance(v, IteV):
            pass
        return self.sym(("call", "Eigen." + (op or n), tuple(x for x in e.get("ta", ()) if type(x) is int), v, tuple(args)), e["t"])

    def static_eigen(self, e, n, args):
        k = tinfo(e["t"])
        cls = e.get("cls", "")
        dims = None
        m = re.match(r".*Matrix<[^,]*, (\d+), (\d+)", cls) or re.match(r".*Matrix<[^,<>]*, (\d+), (\d+)", e["t"])
        if m:
            dims = (int(m.group(1)), int(m.group(2)))
        if dims:
            r, c = dims
            if n == "Zero":
                return Mat(r, c, (ZERO,) * (r * c))
            if n == "Ones":
                return Mat(r, c, (ONE,) * (r * c))
            if n == "Identity":
                return self.eye(r, c)
            if n == "Constant" and args:
                return Mat(r, c, (self.num(args[-1]),) * (r * c))
            if n in ("UnitX", "UnitY", "UnitZ"):
                i = "XYZ".index(n[-1])
                if r == c:
                    c = 1
                return Mat(r, c, tuple(ONE if j == i else ZERO for j in range(r * c)))
        if n == "Identity" and "Quaternion" in cls:
            return Quat((ZERO, ZERO, ZERO, ONE))
        return None

    def eye(self, r, c):
        return Mat(r, c, tuple(ONE if i == j else ZERO for i in range(r) for j in range(c)))

    def sumsq(self, es):
        s = ZERO
        for x in es:
            s = s + x * x
        return s

    def mneg(self, a):
        return Mat(a.r, a.c, tuple(-x for x in a.e))

    def normalized(self, a):
        nn = psqrt(self.sumsq(a.e))
        return Mat(a.r, a.c, tuple(pdiv(x, nn) for x in a.e))

    def matop(self, op, a, b):
        if isinstance(a, Quat) and isinstance(b, Quat) and op == "*":
            return self.qmul(a, b)
        if isinstance(a, Quat) and isinstance(b, Mat) and op == "*":
            R = self.qrot(a)
            return self.mm(R, b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in ("+", "-") and (a.r, a.c) == (b.r, b.c):
                f = (lambda x, y: x + y) if op == "+" else (lambda x, y: x - y)
                return Mat(a.r, a.c, tuple(f(x, y) for x, y in zip(a.e, b.e)))
            if op == "*":
                if a.c == b.r:
                    return self.mm(a, b)
            if op == "==":
                return f_and(*[f_eq0(x - y) for x, y in zip(a.e, b.e)])
            if op == "!=":
                return f_not(f_and(*[f_eq0(x - y) for x, y in zip(a.e, b.e)]))
            return None
        if isinstance(a, Mat) and isinstance(b, (Poly, F)):
            s = self.num(b)
            if op == "*":
                return Mat(a.r, a.c, tuple(x * s for x in a.e))
            if op == "/":
                return Mat(a.r, a.c, tuple(pdiv(x, s) for x in a.e))
        if isinstance(b, Mat) and isinstance(a, (Poly, F)) and op == "*":
            s = self.num(a)
            return Mat(b.r, b.c, tuple(x * s for x in b.e))
        if isinstance(a, (Poly, F)) and isinstance(b, (Poly, F)):
            return self.arith(op, a, b, False)
        return None

    def mm(self, a, b):
        out = []
        for i in range(a.r):
            for j in range(b.c):
                s = ZERO
                for k in range(a.c):
                    s = s + a.at(i, k) * b.at(k, j)
                out.append(s)
        return Mat(a.r, b.c, tuple(out))

    def qmul(self, a, b):
        x1, y1, z1, w1 = a.e
        x2, y2, z2, w2 = b.e
        return Quat((w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
                     w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
                     w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2))

    def qrot(self, q):
        x, y, z, w = q.e
        two = C(2)
        return Mat(3, 3, (ONE - two * (y * y + z * z), two * (x * y - z * w), two * (x * z + y * w),
                          two * (x * y + z * w), ONE - two * (x * x + z * z), two * (y * z - x * w),
                          two * (x * z - y * w), two * (y * z + x * w), ONE - two * (x * x + y * y)))

    def quat_method(self, e, n, op, v, args):
        if n in ("x", "y", "z", "w") and not args:
            return v.e["xyzw".index(n)]
        if n == "coeffs":
            return Mat(4, 1, v.e)
        if n == "vec":
            return Mat(3, 1, v.e[:3])
        if n in ("toRotationMatrix", "matrix"):
            return self.qrot(v)
        if n == "conjugate":
            return Quat((-v.e[0], -v.e[1], -v.e[2], v.e[3]))
        if n == "normalized":
            nn = psqrt(self.sumsq(v.e))
            return Quat(tuple(pdiv(x, nn) for x in v.e))
        if n == "norm":
            return psqrt(self.sumsq(v.e))
        if n == "squaredNorm":
            return self.sumsq(v.e)
        if op == "*" and args:
            r = self.matop("*", v, args[0])
            if r is not None:
                return r
        if n == "inverse":
            s = self.sumsq(v.e)
            return Quat((pdiv(-v.e[0], s), pdiv(-v.e[1], s), pdiv(-v.e[2], s), pdiv(v.e[3], s)))
        return self.sym(("call", "Quat." + (op or n), (), v, tuple(args)), e["t"])

    def mat_method(self, e, n, op, v, args):
        if op in ("()", "[]") or n in ("coeff", "coeffRef"):
            sq = self.seqn_idx(args, v.r, v.c)
            if sq is not None:
                return Mat(sq[1][0], sq[1][1], tuple(v.e[i] for i in sq[0]))
            if all(isinstance(a, Poly) and a.is_const() for a in args):
                ii = [int(a.cval()) for a in args]
                f = ii[0] if len(ii) == 1 else ii[0] * v.c + ii[1]
                if 0 <= f < len(v.e):
                    return v.e[f]
                return None
            return self.sym(("el", v, tuple(self.num(a) for a in args)), ("flt",))
        if op in ("+", "-", "*", "/") and len(args) == 1:
            return self.matop(op, v, args[0])
        if op == "-" and not args:
            return self.mneg(v)
        if op in ("==", "!="):
            return self.matop(op, v, args[0])
        if n in ("noalias", "eval", "array", "matrix", "derived", "template cast", "cast", "real", "col") and not args:
            return v
        b = self.block_idx(n, e.get("ta"), args, v.r, v.c)
        if b is not None:
            if b[1] is None:
                return v.e[b[0][0]]
            return Mat(b[1][0], b[1][1], tuple(v.e[i] for i in b[0]))
        if n == "norm":
            return psqrt(self.sumsq(v.e))
        if n == "squaredNorm":
            return self.sumsq(v.e)
        if n == "normalized":
            return self.normalized(v)
        if n == "dot" and isinstance(args[0], Mat) and len(args[0].e) == len(v.e):
            s = ZERO
            for x, y in zip(v.e, args[0].e):
                s = s + x * y
            return s
        if n == "cross" and isinstance(args[0], Mat) and len(v.e) == 3 and len(args[0].e) == 3:
            a, b2 = v.e, args[0].e
            return Mat(v.r, v.c, (a[1] * b2[2] - a[2] * b2[1], a[2] * b2[0] - a[0] * b2[2], a[0] * b2[1] - a[1] * b2[0]))
        if n == "transpose":
            return Mat(v.c, v.r, tuple(v.at(i, j) for j in range(v.c) for i in range(v.r)))
        if n == "sum":
            s = ZERO
            for x in v.e:
                s = s + x
            return s
        if n == "trace":
            s = ZERO
            for i in range(min(v.r, v.c)):
                s = s + v.at(i, i)
            return s
        if n in ("cwiseProduct", "cwiseQuotient") and isinstance(args[0], Mat):
            f = (lambda x, y: x * y) if n == "cwiseProduct" else pdiv
            return Mat(v.r, v.c, tuple(f(x, y) for x, y in zip(v.e, args[0].e)))
        if n == "asDiagonal":
            k = len(v.e)
            return Mat(k, k, tuple(v.e[i] if i == j else ZERO for i in range(k) for j in range(k)))
        if n == "inverse" and (v.r, v.c) == (3, 3) and not args:
            return self.inv3(v)
        if n == "determinant" and (v.r, v.c) == (3, 3) and not args:
            return self.adj3(v)[1]
        if n in ("rows", "cols", "size"):
            return C({"rows": v.r, "cols": v.c, "size": v.r * v.c}[n])
        if n == "hasNaN":
            return f_atom(("hasnan", v))
        return None

    def adj3(self, m):
        """adjugate and determinant of a 3 x 3 matrix"""
        a = m.e

        def cof(i, j):
            r = [k for k in range(3) if k != i]
            c = [k for k in range(3) if k != j]
            d = a[3 * r[0] + c[0]] * a[3 * r[1] + c[1]] - a[3 * r[0] + c[1]] * a[3 * r[1] + c[0]]
            return d if (i + j) % 2 == 0 else -d
        adj = Mat(3, 3, tuple(cof(j, i) for i in range(3) for j in range(3)))
        det = ZERO
        for j in range(3):
            det = det + a[j] * cof(0, j)
        return adj, det

    def inv3(self, m):
        adj, det = self.adj3(m)
        return Mat(3, 3, tuple(pdiv(x, det) for x in adj.e))

    def comma(self, e, st, fr):
        # m << a, b, c  parses as ((m << a) , b) , c
        vals = []
        x = e
        while True:
            if x["k"] == "call" and x.get("op") == ",":
                vals.append(x["a"][0] if x.get("o") is not None else x["a"][1])
                x = strip(x["o"] if x.get("o") is not None else x["a"][0])
                continue
            if x["k"] == "call" and x.get("op") == "<<":
                vals.append(x["a"][0] if x.get("o") is not None else x["a"][1])
                tgt = x["o"] if x.get("o") is not None else x["a"][0]
                break
            return self.sym(self.fresh("comma"), e["t"])
        vals.reverse()
        vs = [self.ev(v, st, fr) for v in vals]
        mp = self.getmat_place(tgt, st, fr)
        if mp is None:
            return self.sym(self.fresh("comma"), e["t"])
        p, r, c = mp
        flat = []
        grid = [[None] * c for _ in range(r)]
        i = j = 0
        ok = True
        rowh = 1
        for v in vs:
            if isinstance(v, Mat):
                h, w, es = v.r, v.c, v.e
            else:
                h, w, es = 1, 1, (self.num(v),)
            if j + w > c:
                i += rowh
                j = 0
            rowh = h
            for a in range(h):
                for b in range(w):
                    if i + a < r and j + b < c:
                        grid[i + a][j + b] = es[a * w + b]
                    else:
                        ok = False
            j += w
        if ok and all(x is not None for row in grid for x in row):
            self.wrplace(st, p, Mat(r, c, tuple(x for row in grid for x in row)))
        else:
            self.wrplace(st, p, self.sym(self.fresh("comma"), ("mat", r, c)))
        return UNDEF

    def size_of(self, st, path):
        return self.num(self.read(st, path + ((".", "#size"),), "unsigned long"))

    def stdlib(self, e, st, fr, qn, n):
        if n == "epsilon" and qn.startswith("std::numeric_limits<") and not e["a"]:
            if "<double>" in qn:
                return C(Fraction(1, 2 ** 52))
            if "<float>" in qn:
                return C(Fraction(1, 2 ** 23))
        o = e.get("o")
        op = e.get("op")
        base = qn.split("<")[0].split("::")[1] if "::" in qn else ""
        if n in MATH1 or n in MATH2:
            if qn.startswith("std::" + n):
                a = self.argvals(e, st, fr)
                if all(isinstance(x, (Poly, F)) for x in a):
                    if n == "isnan":
                        return f_atom(("isnan", self.num(a[0])))
                    return self.math(n, a)
                return self.sym(("fn", n, tuple(a)), e["t"])
        if n in ("move", "forward", "as_const", "ref", "cref") and len(e["a"]) == 1:
            p = self.lv(e["a"][0], st, fr)
            return p if p is not None else self.ev(e["a"][0], st, fr)
        if n in ALGOS and o is None and qn.split("<")[0] == "std::" + n:
            r = self.algo(e, st, fr, n)
            if r is not None:
                return r
        if n in ("make_pair", "make_tuple", "tie", "forward_as_tuple") and o is None:
            return self.tup(n == "make_pair", self.argvals(e, st, fr))
        if base in ("tuple", "pair") and o is not None and op == "=":
            v = self.ev(e["a"][0], st, fr)
            t = strip(o)
            if t["k"] == "call" and t.get("n") == "tie":
                ks = tup_keys(strip(e["a"][0]).get("t") or e["a"][0].get("t") or "", len(t["a"]))
                for x, key in zip(t["a"], ks):
                    p = self.lv(x, st, fr)
                    if p is not None:
                        self.wrplace(st, p, self.project(v, ((".", key),), tinfo(x["t"])))
                return v
            p = self.lv(o, st, fr)
            if p is not None:
                self.wrplace(st, p, v)
            return v
        if n == "get" and o is None and len(e["a"]) == 1 and e.get("ta") and type(e["ta"][0]) is int:
            t = e["a"][0].get("t") or ""
            i = e["ta"][0]
            key = tup_keys(t, i + 1)[i]
            p = self.lv(e["a"][0], st, fr)
            if p is not None and p.sel is None:
                return Place(p.path + ((".", key),), e["t"])
            return self.project(self.ev(e["a"][0], st, fr), ((".", key),), tinfo(e["t"]))
        if n in ("make_shared", "make_unique"):
            args = tuple(self.argvals(e, st, fr))
            self.n += 1
            path = (("H", e.get("l"), self.n),)
            k = tinfo(e["t"])
            self.dyn[path] = k[1] if k[0] == "ptr" else ""
            self.write(st, path, Agg(("newobj", k[1] if k[0] == "ptr" else "", args), ()))
            st.ev = st.ev + [("new", k[1] if k[0] == "ptr" else "", path)]
            return Ptr(path)
        if n == "size" and o is None:
            n2 = None
        if qn.startswith(("std::vector", "std::array", "std::deque")) and o is not None:
            return self.vecm(e, st, fr, n, op, o)
        if base in ("shared_ptr", "unique_ptr", "__shared_ptr", "__shared_ptr_access") and o is not None:
            if n == "get":
                return self.ev(o, st, fr)
            if op in ("->",):
                return self.ev(o, st, fr)
            if op == "*":
                return self.rdplace(st, Place(self.derefpath(self.ev(o, st, fr), e["t"]), e["t"]))
            if op == "=":
                p = self.lv(o, st, fr)
                v = self.ev(e["a"][0], st, fr)
                if p is not None:
                    self.wrplace(st, p, v)
                return v
            if n == "operator bool":
                return self.cond(self.ev(o, st, fr))
            if n == "reset":
                p = self.lv(o, st, fr)
                v = self.ev(e["a"][0], st, fr) if e["a"] else NULL
                if p is not None:
                    self.wrplace(st, p, v)
                return v
        if op in ("==", "!=") and o is None and len(e["a"]) == 2:
            a, b = self.argvals(e, st, fr)
            if isinstance(a, Agg) and isinstance(b, Agg):
                return None
            return self.compare(op, a, b, False)
        if base in ("basic_string",) and o is not None:
            return self.strm(e, st, fr, n, op, o)
        if base in ("_Bit_reference",) and o is not None:
            if n == "operator bool":
                return self.cond(self.ev(o, st, fr))
            if op == "=":
                p = self.lv(o, st, fr)
                v = self.cond(self.ev(e["a"][0], st, fr))
                if p is not None:
                    self.wrplace(st, p, v)
                return v
        if "iterator" in qn and o is not None:
            p = self.lv(o, st, fr)
            if op in ("++", "--") and p is not None:
                old = self.rdplace(st, p)
                if isinstance(old, Ptr):
                    new = Ptr(self.ptr_elem(old, ONE if op == "++" else -ONE))
                    self.wrplace(st, p, new)
                    return old if e["a"] else new
            if op == "->":
                return self.ev(o, st, fr)
            if op in ("+", "-"):
                a = self.ev(o, st, fr)
                b = self.ev(e["a"][0], st, fr)
                if isinstance(a, (Ptr, PtrT)):
                    return self.arith(op, a, b, True)
            if op == "*":
                v = self.ev(o, st, fr)
                if isinstance(v, Ptr):
                    return self.read(st, v.v[0], e["t"])
        if op and o is None and len(e["a"]) == 2 and op in ("+",):
            a, b = self.argvals(e, st, fr)
            if isinstance(a, Str) and isinstance(b, Str):
                return Str(a.v[0] + b.v[0])
            return Op(("strcat", a, b))
        if op == "<<" :
            return self.stream(e, st, fr)
        return None

    def s_pyblk(self, s, st, fr):
        try:
            s["f"](st, fr)
        except Terminated:
            return None
        return st

    def algo(self, e, st, fr, n):
        """the loops of <algorithm> over one array: the same as the written-out loop"""
        a = self.argvals(e, st, fr)

        def elem(v):
            return (v.v[0][:-1], v.v[0][-1][1]) if isinstance(v, Ptr) and v.v[0] and v.v[0][-1][0] == "[" and isinstance(v.v[0][-1][1], Poly) else None

        def ety(i):
            t = tinfo(strip(e["a"][i]).get("t") or e["a"][i].get("t") or "")
            if t[0] == "ptr":
                return t[1]
            m = re.search(r"__normal_iterator<(?:const )?([^*]*?) *(?:const)? *\*", e["a"][i].get("t") or "")
            if m:
                return m.group(1)
            p = elem(a[i])
            if p:
                t = tinfo(self.types.get(p[0]) or "?")
                if t[0] in ("vec", "arr"):
                    return t[1]
            return "?"
        lo = elem(a[0]) if a else None
        if lo is None:
            return None
        if n in ("copy_n", "fill_n"):
            cnt = self.num(a[1]) if isinstance(a[1], (Poly, F)) else None
        else:
            hi = elem(a[1]) if len(a) > 1 else None
            cnt = hi[1] - lo[1] if hi is not None and hi[0] == lo[0] else None
        if cnt is None:
            return None
        base, k0 = lo
        cur = {}
        acc = None
        t0 = ety(0)

        def src(it):
            return Place(base + (("[", k0 + it),), t0)
        if n == "for_each":
            clo = a[2]
            if not isinstance(clo, Clo):
                return None

            def body(x, f):
                self.closure_call(clo, [], x, f, [src(cur["it"]) if (clo.v[2][0]["params"][0]["t"]).endswith("&") else self.read(x, src(cur["it"]).path, t0)])
        elif n in ("copy", "copy_n", "transform"):
            dst = elem(a[2]) if len(a) > 2 else None
            clo = a[3] if n == "transform" and len(a) == 4 else None
            if dst is None or n == "transform" and not isinstance(clo, Clo):
                return None
            td = ety(2)

            def body(x, f):
                v = self.read(x, src(cur["it"]).path, t0)
                if clo is not None:
                    v = self.closure_call(clo, [], x, f, [v])
                self.wrplace(x, Place(dst[0] + (("[", dst[1] + cur["it"]),), td), v)
        elif n in ("fill", "fill_n"):
            def body(x, f):
                self.wrplace(x, src(cur["it"]), a[2])
        elif n == "accumulate":
            self.n += 1
            acc = Place((("V", "acc", self.n),), e["t"])
            self.write(st, acc.path, a[2], e["t"])
            clo = a[3] if len(a) > 3 else None
            if clo is not None and not isinstance(clo, Clo):
                return None

            def body(x, f):
                v = self.read(x, src(cur["it"]).path, t0)
                old = self.read(x, acc.path, e["t"])
                if clo is not None:
                    nv = self.closure_call(clo, [], x, f, [old, v])
                elif isinstance(old, Mat) and isinstance(v, Mat):
                    nv = self.matop("+", old, v)
                elif isinstance(old, (Poly, F)) and isinstance(v, (Poly, F)):
                    nv = self.num(old) + self.num(v)
                else:
                    nv = Op(self.fresh("acc"))
                self.wrplace(x, acc, nv)
        else:
            return None

        def bind(x, it):
            cur["it"] = it
            return x
        r = self.loop(st.copy(), fr, {"k": "for", "l": e.get("l")}, None, None, {"k": "pyblk", "f": body}, cnt, bind)
        if r is None:
            raise Terminated()
        self.absorb(st, r)
        if acc is not None:
            return self.read(st, acc.path, e["t"])
        return UNDEF

    def tup(self, pair, vals):
        ks = ("first", "second") if pair else tuple("#%d" % i for i in range(len(vals)))
        return Agg(("tup",), tuple((((".", k),), v) for k, v in zip(ks, vals)))

    def stream(self, e, st, fr):
        if e.get("o") is not None:
            a, b = e["o"], e["a"][0]
        elif len(e["a"]) == 2:
            a, b = e["a"]
        else:
            return None
        s = self.ev_stream(a, st, fr)
        bs = strip(b)
        if bs["k"] == "ref" and bs.get("dk") == "fn":
            v = Op(("manip", bs["n"]))
        else:
            v = self.ev(b, st, fr)
        self.on_stream(s, v, b, st, fr, e)
        return s

    def ev_stream(self, a, st, fr):
        x = strip(a)
        if x["k"] == "call" and x.get("op") == "<<":
            return self.ev(x, st, fr)
        p = self.lv(a, st, fr)
        if p is not None and p.sel is None:
            return Op(("stream", p.path))
        return self.ev(a, st, fr)

    def on_stream(self, s, v, node, st, fr, e):
        pass

    def is0(self, x, n, st, fr):
        v = self.ev(x, st, fr)
        return isinstance(v, Poly) and v.is_const() and (v.cval() == 0) != (n == "rfind")

    def strm(self, e, st, fr, n, op, o):
        if op == "=":
            p = self.lv(o, st, fr)
            v = self.ev(e["a"][0], st, fr)
            if p is not None:
                self.wrplace(st, p, v)
            return v
        v = self.ev(o, st, fr)
        if n == "c_str" or n == "data":
            return v
        if n == "substr" and isinstance(v, Str) and e["a"]:
            a = [self.ev(x, st, fr) for x in e["a"]]
            ks = [int(x.cval()) for x in a if isinstance(x, Poly) and x.is_const()]
            if len(ks) == len(a) and ks[0] <= len(v.v[0]):
                return Str(v.v[0][ks[0]:ks[0] + ks[1]] if len(ks) > 1 else v.v[0][ks[0]:])
        if n in ("find", "rfind", "find_first_of", "find_first_not_of") and isinstance(v, Str) and e["a"] and all(self.is0(x, n, st, fr) for x in e["a"][1:]):
            w = self.ev(e["a"][0], st, fr)
            if isinstance(w, Poly) and w.is_const() and 0 < w.cval() < 128:
                w = Str(chr(int(w.cval())))
            if isinstance(w, Str):
                if n in ("find", "rfind"):
                    r = getattr(v.v[0], n)(w.v[0])
                else:
                    r = next((i for i, c in enumerate(v.v[0]) if (c in w.v[0]) == (n == "find_first_of")), -1)
                return C(r if r >= 0 else 2 ** 64 - 1)
        if n == "erase" and isinstance(v, Str) and len(e["a"]) in (1, 2):
            a = [self.ev(x, st, fr) for x in e["a"]]
            p = self.lv(o, st, fr)
            ks = [int(x.cval()) for x in a if isinstance(x, Poly) and x.is_const()]
            if p is not None and len(ks) == len(a) and ks[0] <= len(v.v[0]):
                s = v.v[0]
                self.wrplace(st, p, Str(s[:ks[0]] + (s[ks[0] + ks[1]:] if len(ks) > 1 else "")))
                return self.rdplace(st, p)
        if n == "compare" and isinstance(v, Str) and len(e["a"]) == 1:
            w = self.ev(e["a"][0], st, fr)
            if isinstance(w, Str):
                return C((v.v[0] > w.v[0]) - (v.v[0] < w.v[0]))
        if n in ("size", "length") and isinstance(v, Str):
            return C(len(v.v[0]))
        if n == "empty" and isinstance(v, Str):
            return TRUE if not v.v[0] else FALSE
        return None

    def vecm(self, e, st, fr, n, op, o):
        p = self.lv(o, st, fr)
        if p is None:
            path = self.objpath(o, st, fr, False)
            p = Place(path, o["t"])
        k = tinfo(p.ty or o["t"])
        if k[0] not in ("vec", "arr"):
            k = tinfo(o["t"])
        el = k[1] if k[0] in ("vec", "arr") else "?"
        szp = p.path + ((".", "#size"),)

        def size():
            if k[0] == "arr" and k[2]:
                return C(k[2])
            return self.num(self.read(st, szp, "unsigned long"))
        if n == "size":
            return size()
        if n == "empty":
            return f_eq0(size())
        if op == "[]" or n in ("at", "front", "back"):
            pl = self.lv_call(e, st, fr)
            if pl is None:
                return None
            return self.rdplace(st, pl)
        if n in ("reserve", "shrink_to_fit"):
            self.argvals(e, st, fr)
            return UNDEF
        if n in ("push_back", "emplace_back"):
            if n == "emplace_back" and len(e["a"]) != 1:
                a = self.argvals(e, st, fr)
                v = Agg(("ctor", el, tuple(a)), ()) if a else self.default(el)
            else:
                v = self.ev(e["a"][0], st, fr)
            s = size()
            self.write(st, p.path + (("[", s),), self.coerce(v, el), el)
            self.write(st, szp, s + ONE, "unsigned long")
            return UNDEF
        if n == "clear":
            self.write(st, p.path, Agg(("empty",), ()), p.ty)
            return UNDEF
        if n == "resize":
            a = self.argvals(e, st, fr)
            s0 = size()
            if len(a) > 1 and s0 == ZERO:
                self.write(st, p.path, Agg(("empty",), (((("[*", ZERO, self.num(a[0])),), a[1]),)), p.ty)
            elif s0 == ZERO:
                self.write(st, p.path, Agg(("empty",), (((("[*", ZERO, self.num(a[0])),), self.zero_of(el)),)), p.ty)
            self.write(st, szp, self.num(a[0]), "unsigned long")
            return UNDEF
        if n == "assign":
            a = self.argvals(e, st, fr)
            if len(a) == 2 and isinstance(a[0], (Poly, F)):
                nn = self.num(a[0])
                v = self.coerce(a[1], el)
                self.write(st, p.path, Agg(("empty",), (((("[*", ZERO, nn),), v), (((".", "#size"),), nn))), p.ty)
                return UNDEF
            vs = None
            if len(a) == 2 and all(isinstance(x, Ptr) and x.v[0] and x.v[0][-1][0] == "[" for x in a) and a[0].v[0][:-1] == a[1].v[0][:-1]:
                i0, nn = self.num(a[0].v[0][-1][1]), self.num(a[1].v[0][-1][1]) - self.num(a[0].v[0][-1][1])
                if nn.is_const() and 0 <= nn.cval() <= 64:
                    vs = [self.read(st, a[0].v[0][:-1] + (("[", i0 + C(i)),), el) for i in range(int(nn.cval()))]
            elif len(a) == 1 and isinstance(a[0], Op) and type(a[0].v[0]) is tuple and a[0].v[0][0] == "list":
                vs = list(a[0].v[0][1])
            if vs is not None:
                self.write(st, p.path, Agg(("empty",), ()), p.ty)
                for i, v in enumerate(vs):
                    self.write(st, p.path + (("[", C(i)),), self.coerce(v, el), el)
                self.write(st, szp, C(len(vs)), "unsigned long")
                return UNDEF
            self.write(st, p.path, Agg(("opaque", self.fresh("assign")), ()), p.ty)
            self.write(st, szp, self.num(self.sym(self.fresh("size"), "unsigned long")), "unsigned long")
            return UNDEF
        if n == "data":
            return Ptr(p.path + (("[", ZERO),))
        if n in ("begin", "cbegin"):
            return Ptr(p.path + (("[", ZERO),))
        if n in ("end", "cend"):
            return Ptr(p.path + (("[", size()),))
        if op == "=":
            v = self.ev(e["a"][0], st, fr)
            self.wrplace(st, p, v)
            return v
        if n == "insert":
            a = self.argvals(e, st, fr)
            s0 = size()
            if len(a) == 2 and isinstance(a[0], Ptr) and a[0].v[0] == p.path + (("[", s0),):
                self.write(st, p.path + (("[", s0),), self.coerce(a[1], el), el)
                self.write(st, szp, s0 + ONE, "unsigned long")
                return UNDEF
            st.ev = st.ev + [("insert", p.path, tuple(a), e.get("l"))]
            self.write(st, p.path, Agg(("inserted", self.read(st, p.path, p.ty), tuple(a)), ()), p.ty)
            if len(a) == 2:
                self.write(st, szp, s0 + ONE, "unsigned long")
            return UNDEF
        if n in ("erase", "pop_back"):
            a = self.argvals(e, st, fr)
            st.ev = st.ev + [(n, p.path, tuple(a), e.get("l"))]
            self.write(st, p.path, Agg((n, self.read(st, p.path, p.ty), tuple(a)), ()), p.ty)
            return UNDEF
        return None


class Terminated(Exception):
    pass


def fr_this(fr):
    f = fr
    while f is not None:
        if f.this is not None:
            return f.this
        f = f.parent
    return (("T", "this"),)


MATH1 = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10", "fabs",
         "abs", "floor", "ceil", "round", "trunc", "isnan", "cbrt", "log1p", "expm1"}
MATH2 = {"pow", "atan2", "fmod", "fmin", "fmax", "min", "max", "hypot"}
