"""Abstract execution of the input file reader over a file with one row per section: the tokens of
a row are names (or given words), so that what reaches a field is seen as 'the number in column k'."""
import re
from absint import *
from util import *
from drive import Drive

NUM = {"atof": "num", "stod": "num", "stold": "num", "stof": "num", "strtod": "num", "strtold": "num",
       "atoi": "int", "stoi": "int", "stol": "int", "strtol": "int", "stoul": "int", "stoull": "int", "strtoul": "int", "atol": "int"}
NPOS = C(2 ** 64 - 1)
LINES = ("G", "#lines")
SPACE, BAR = C(32), C(124)


def cidx(p):
    return int(p.cval()) if isinstance(p, Poly) and p.is_const() else p if type(p) is int else None


def decompose(w):
    m = re.match(r"([A-Z]*)([0-9]*)([A-Z]*)([0-9]*)(.*)$", w.upper())
    return m.groups()


class NotNumber(Exception):
    """std::invalid_argument thrown by a conversion"""

    def __init__(self, st):
        self.st = st


class Reader(Drive):
    """rows: {section name: (number of the first row, [({column: word}, number of columns or None), ...])}"""

    def __init__(self, P, cls=None, rows=None, parts=None, stop=(), same=True, data=None, **kw):
        self.stop = set(stop)
        self.rows = rows or {}
        self.words = {(r + i, c): w for r, l in self.rows.values() for i, (ws, _) in enumerate(l) for c, w in ws.items()}
        self.count = {r + i: n for r, l in self.rows.values() for i, (_, n) in enumerate(l) if n is not None}
        self.text_rows = [r + i for r, l in self.rows.values() for i in range(len(l))]
        self.parts = parts or {}
        self.same = same
        self.data = data or []
        self.pos = 0
        self.text_rows += [1000 + i for i in range(len(self.data))]
        self.count.update({1000 + i: n for i, n in enumerate(self.data) if n})
        self.assumed = []
        super().__init__(P, cls, **kw)

    def want(self, f):
        n = f["qn"].rpartition("::")[2]
        if n in self.stop or f.get("file", "").endswith(("Log.cpp", "Log.hpp")):
            return False
        return f.get("cls") not in ("moordyn::Waves", "moordyn::Seafloor", "moordyn::CFL")

    # -- names of rows and tokens
    def row(self, v):
        if isinstance(v, Op) and type(v.v[0]) is tuple and v.v[0][0] == "in" and v.v[0][1][0] == LINES and len(v.v[0][1]) == 2:
            return cidx(v.v[0][1][1][1])
        return None

    def token(self, v):
        """(row, column) or (row, column, part)"""
        if isinstance(v, Op) and type(v.v[0]) is tuple and v.v[0][0] == "in" and v.v[0][1][0][0] == "R" and len(v.v[0][1]) == 2:
            k = cidx(v.v[0][1][1][1]) if v.v[0][1][1][0] == "[" else None
            return v.v[0][1][0][1:] + (k,) if k is not None else None
        return None

    def sym(self, term, ty):
        if type(term) is tuple and term[0] == "in" and len(term[1]) == 1 and term[1][0][0] == "G" and str(term[1][0][1]).endswith("::npos"):
            return NPOS
        if type(term) is tuple and term[0] == "in" and term[1][0][0] == "R" and len(term[1]) == 2:
            h, s = term[1]
            if s == (".", "#size"):
                n = self.count.get(h[1]) if len(h) == 2 else self.parts.get(h[1:])
                if n is not None:
                    return C(n)
            k = cidx(s[1]) if s[0] == "[" else None
            if k is not None and h[1:] + (k,) in self.words:
                return Str(self.words[h[1:] + (k,)])
        return super().sym(term, ty)

    def num_of(self, kind, v):
        if isinstance(v, Str):
            try:
                return C(int(v.v[0]))
            except ValueError:
                return C(0)
        return Poly.atom(("v", ("in", (("X", kind, v),))))

    def icol(self, *at):
        """the integer in a column"""
        return Poly.atom(("v", ("in", (("X", "int", Op(("in", (("R",) + at[:-1], ("[", C(at[-1])))))),))))

    def whole(self, *at):
        return [self.icol(*at), self.col(*at)]

    def col(self, *at):
        """the number in a column"""
        return Poly.atom(("v", ("in", (("X", "num", Op(("in", (("R",) + at[:-1], ("[", C(at[-1])))))),))))

    def text(self, *at):
        return Str(self.words[at]) if at in self.words else Op(("in", (("R",) + at[:-1], ("[", C(at[-1])))))

    def do_call(self, e, st, fr, want_place=False):
        qn = e.get("qn") or ""
        n = qn.rpartition("::")[2]
        if n in NUM and not e.get("in") and e.get("a"):
            v = self.ev(e["a"][0], st, fr)
            if n.startswith("sto") and isinstance(v, Str) and not re.match(r"\s*[-+.0-9]", v.v[0]):
                raise NotNumber(st)
            return self.num_of(NUM[n], v)
        if n in ("memcpy", "memmove") and len(e["a"]) == 3 and self.copy(e, st, fr):
            return ZERO
        if self.data and not e.get("in"):
            if n == "good":
                return TRUE if self.pos < len(self.data) else FALSE
            if n == "getline" and len(e["a"]) > 1:
                p = self.lv(e["a"][1], st, fr)
                if p is not None and self.pos < len(self.data):
                    self.wrplace(st, p, Str("") if self.data[self.pos] == 0 else Op(("in", (LINES, ("[", C(1000 + self.pos))))))
                self.pos += 1
                return TRUE if self.pos <= len(self.data) else FALSE
            if n in ("empty", "size", "length") and e.get("o") is not None and "basic_string" in (strip(e["o"]).get("t") or "") and self.row(self.ev(e["o"], st, fr)) is not None:
                return FALSE if n == "empty" else C(10)
        if n == "readFileIntoBuffers" and e.get("in") and e.get("a"):
            p = self.lv(e["a"][0], st, fr)
            if p is not None:
                self.wrplace(st, p, self.sym(("in", (LINES,)), p.ty))
                self.write(st, p.path + ((".", "#size"),), C(1000), "int")
                return C(0)
        if n == "findStartOfSection" and e.get("in") and len(e["a"]) > 1:
            v = self.ev(e["a"][1], st, fr)
            names = [s.v[0] for s in walk(v) if isinstance(s, Str)]
            for k, (r, _) in self.rows.items():
                if k in names:
                    return C(r)
            return C(-1)
        if n in ("find", "rfind", "compare") and e.get("o") is not None and e.get("a") and not e.get("in"):
            a = self.ev(e["a"][0], st, fr)
            r = self.row(self.ev(e["o"], st, fr))
            if r is not None and isinstance(a, Str) and "---" in a.v[0]:
                return NPOS if r in self.text_rows else ZERO
        if e.get("op") in ("==", "!=") and not e.get("in"):
            xs = ([e["o"]] if e.get("o") is not None else []) + e["a"]
            if len(xs) == 2 and all("basic_string" in (strip(x).get("t") or "") for x in xs):
                a, b = (self.ev(x, st, fr) for x in xs)
                if isinstance(a, Str) and isinstance(b, Str):
                    return TRUE if (a.v[0] == b.v[0]) == (e["op"] == "==") else FALSE
                if self.same and self.token(a) and self.token(b):
                    self.assumed.append((a, b))
                    return TRUE if e["op"] == "==" else FALSE
        if qn.startswith(("moordyn::Waves::", "moordyn::Seafloor::", "moordyn::TimeScheme::")) and e.get("in"):
            vs = tuple(self.ev(a, st, fr) for a in e["a"])
            st.ev = st.ev + [("call", qn, None, vs, e.get("l"), fr.fn["qn"], st.pc)]
            return self.sym(("call", qn, (), None, vs), e["t"])
        if n == "is_open" and not e.get("in"):
            self.pos = 0
            return TRUE
        if "::str::" in qn and e.get("in"):
            return self.strfn(n, e, st, fr)
        return super().do_call(e, st, fr, want_place)

    def elems(self, x, st, fr):
        """path of the array a pointer points into"""
        x = strip(x)
        if x["k"] == "call" and x.get("n") == "data" and x.get("o") is not None:
            p = self.lv(x["o"], st, fr)
            return p.path if p is not None and p.sel is None else None
        v = self.ev(x, st, fr)
        return v.v[0][:-1] if isinstance(v, Ptr) and v.v[0][-1] == ("[", ZERO) else None

    def copy(self, e, st, fr):
        d, s = self.elems(e["a"][0], st, fr), self.elems(e["a"][1], st, fr)
        n = self.ev(e["a"][2], st, fr)
        n = cidx(pdiv(n, C(8))) if isinstance(n, Poly) else None
        if d is None or s is None or n is None:
            return False
        for i in range(n):
            self.write(st, d + (("[", C(i)),), self.read(st, s + (("[", C(i)),), "double"), "double")
        return True

    def s_try(self, s, st, fr):
        try:
            return super().s_try(s, st, fr)
        except NotNumber as x:
            for h in s["h"]:
                if h.get("t") in (None, "...") or any(k in h["t"] for k in ("invalid_argument", "logic_error", "std::exception")):
                    return self.exec(h["b"], x.st, fr)
            raise

    def strfn(self, n, e, st, fr):
        rp = e.get("rp") or []
        outs = [i for i in range(len(e["a"])) if i < len(rp) and rp[i] == 2]
        if n in ("rtrim", "ltrim", "trim"):
            return self.ev(e["a"][0], st, fr)
        vs = tuple(self.ev(a, st, fr) for i, a in enumerate(e["a"]) if i not in outs)
        if outs:
            gs = decompose(vs[0].v[0]) if n == "decomposeString" and isinstance(vs[0], Str) else None
            for i in outs:
                p = self.lv(e["a"][i], st, fr)
                if p is not None:
                    self.wrplace(st, p, Str(gs[i - 1]) if gs and i - 1 < len(gs) else self.sym(("in", (("X", "%s%d" % (n, i)) + vs,)), p.ty))
            return ZERO
        s = vs[0]
        if n == "split":
            r, t = self.row(s), self.token(s)
            if r is not None and (len(vs) < 2 or vs[1] == SPACE):
                return self.sym(("in", (("R", r),)), e["t"])
            if t is not None and len(vs) > 1 and vs[1] == BAR:
                return self.sym(("in", (("R",) + t,)), e["t"])
        elif isinstance(s, Str):
            if n in ("upper", "lower"):
                return Str(getattr(s.v[0], n)())
            ws = [x.v[0] for x in walk(vs[1]) if isinstance(x, Str)] if len(vs) > 1 else None
            if n == "isOneOf":
                return TRUE if s.v[0] in ws else FALSE
            if n == "startswith":
                return TRUE if s.v[0].startswith(ws[0]) else FALSE
            if n == "has":
                return TRUE if any(w in s.v[0] for w in ws) else FALSE
        return self.sym(("in", (("X", n) + vs,)), e["t"])


def walk(v):
    yield v
    if isinstance(v, V):
        for x in v.v:
            yield from walk(x)
    elif type(v) is tuple:
        for x in v:
            yield from walk(x)


MD = "moordyn::MoorDyn"
THIS = (("T", "this"),)
LISTS = {"LINE TYPES": ("LinePropList", 10), "ROD TYPES": ("RodPropList", 20), "BODIES": ("BodyList", 30), "POINTS": ("PointList", 40), "RODS": ("RodList", 50), "LINES": ("LineList", 60), "OPTIONS": (None, 70), "OUTPUT": ("outChans", 80)}
KIND = {"BODIES": "moordyn::Body", "POINTS": "moordyn::Point", "RODS": "moordyn::Rod", "LINES": "moordyn::Line", "LINE TYPES": "_LineProps", "ROD TYPES": "_RodProps", "OUTPUT": "_OutChanProps"}


class File:
    """a file with the given rows, read by ReadInFile; rows: {section: [({column: word}, columns), ...]}"""

    def __init__(self, P, f, rows, parts=None, **kw):
        self.P = P
        rs = {k: (LISTS[k][1], l) for k, l in rows.items()}
        self.I = I = Reader(P, MD, rs, parts, **kw)
        st = State()
        for l in [l for l, _ in LISTS.values() if l] + [x["n"] for _, x in P.all_fields(MD) if re.match(r"(std::)?vector<", x["t"])]:
            I.write(st, THIS + ((".", l), (".", "#size")), ZERO, "int")
        I.write(st, THIS + ((".", "_t_integrator"),), Null(), "moordyn::TimeScheme *")
        self.st, self.v = I.call_entry(f, THIS, None, st)

    def rejected(self):
        return self.st is None or isinstance(self.v, Poly) and self.v.is_const() and self.v.cval() != 0

    def accepted(self):
        return self.st is not None and isinstance(self.v, Poly) and self.v.is_const() and self.v.cval() == 0

    def member(self, *names):
        """a field of the system, through pointers"""
        path, cls = THIS, MD
        for i, n in enumerate(names):
            ty = next((x["t"] for _, x in self.P.all_fields(cls) if x["n"] == n), None)
            if ty is None:
                return None
            path = path + ((".", n),)
            v = self.I.read(self.st, path, ty)
            if i + 1 < len(names):
                if isinstance(v, (Ptr, PtrT)):
                    path = v.v[0] if isinstance(v, Ptr) else (("D", v.v[0]),)
                m = re.search(r"(?:shared_ptr|unique_ptr)<(.*)>", ty)
                cls = (m.group(1) if m else ty).rstrip("*& ").strip()
                cls = cls[len("const "):] if cls.startswith("const ") else cls
        return v

    def items(self, name):
        """the numbers in a list of the system, None when not known"""
        if not any(x["n"] == name for _, x in self.P.all_fields(MD)):
            return None
        n = self.I.read(self.st, THIS + ((".", name), (".", "#size")), "int")
        if not isinstance(n, Poly) or not n.is_const():
            return None
        vs = [self.I.read(self.st, THIS + ((".", name), ("[", C(i))), "unsigned int") for i in range(int(n.cval()))]
        return [int(v.cval()) if isinstance(v, Poly) and v.is_const() else v for v in vs]

    def obj(self, sec, i=0):
        v = self.I.read(self.st, THIS + ((".", LISTS[sec][0]), ("[", C(i))), KIND[sec] + " *")
        return v if isinstance(v, Ptr) and v.v[0][0][0] == "H" else None

    def field(self, sec, i, name, *more):
        o = self.obj(sec, i)
        ty = next((x["t"] for _, x in self.P.all_fields(KIND[sec]) if x["n"] == name), None)
        if o is None or ty is None:
            return None
        path = o.v[0] + ((".", name),) + more
        if more:
            from absint import tinfo
            k = tinfo(ty)
            ty = self.I.types.get(path) or (k[1] if k[0] == "vec" and len(k) > 1 else ty)
        return self.I.read(self.st, path, ty)
