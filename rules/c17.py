"""C17: each column of the output files holds the quantity that its heading, its unit and the request name."""
import re
from reader import *
from util import *
from drive import all_calls
from expect import Ref, Missing
from fractions import Fraction
from c09 import guarded, loc
from c14 import say
from poly import _atoms

Q = Fraction
NS = "moordyn::"
FILE = (("H", "file", 0),)
DEG = C(180)


class Writer(Drive):
    """what is written to streams is recorded in order"""

    def __init__(self, P, cls, keep=(), only=None, **kw):
        self.keep, self.only = set(keep), only
        super().__init__(P, cls, **kw)

    def want(self, f):
        if self.only and f.get("cls") not in self.only:
            return False
        return not f.get("file", "").endswith(("Log.cpp", "Log.hpp")) and f["qn"].rpartition("::")[2] not in self.keep

    def sym(self, term, ty):
        if type(term) is tuple and term[0] == "in" and len(term[1]) == 1 and term[1][0][0] == "G" and str(term[1][0][1]).endswith("::npos"):
            return NPOS
        return super().sym(term, ty)

    def do_call(self, e, st, fr, want_place=False):
        if not e.get("in") and (e.get("qn") or "").rpartition("::")[2] in ("is_open", "good"):
            return TRUE
        return super().do_call(e, st, fr, want_place)

    def on_stream(self, s, v, node, st, fr, e):
        ty = (strip(node).get("t") or "").replace("const ", "").strip()
        if ty == "char" and isinstance(v, Poly) and v.is_const():
            v = Str(chr(int(v.cval())))
        elif not isinstance(v, (Str, Poly)) and not (isinstance(v, Op) and type(v.v[0]) is tuple and v.v[0][0] == "manip") and ("char" in ty or "string" in ty or "buf" in ty):
            v = None
        st.ev = st.ev + [("out", s, v, e.get("l"), None, None, st.pc)]

    def opaque_call(self, e, st, fr):
        if e.get("n") in ("write", "put", "copy", "transform", "fprintf", "printf", "for_each", "flush") and e.get("n") != "flush":
            st.ev = st.ev + [("out", None, None, e.get("l"), None, None, st.pc)]
        return super().opaque_call(e, st, fr)


def method(P, cls, name, n=None):
    fs = [f for f in P.funcs.values() if f["qn"] == cls + "::" + name and f.get("body") and (n is None or len(f["params"]) == n)]
    return fs[0] if len(fs) == 1 else None


def table(ev, stream=None):
    """rows of cells of what is written; None when it depends on something that is not known"""
    rows, row, cell = [], [], []
    for e, pre in flat_events(ev):
        if e[0] != "out" or stream is not None and e[1] is not None and e[1] != Op(("stream", stream)):
            continue
        if e[2] is None:
            return None
        if any(k in ("if", "loop") for k, *_ in pre):
            return None
        v = e[2]
        if isinstance(v, Op) and type(v.v[0]) is tuple and v.v[0][0] == "manip":
            v = Str("\n" if v.v[0][1] == "endl" else "")
        if isinstance(v, Poly) and v.is_const() and v.cval().denominator == 1 and not isinstance(v, Str):
            cell.append(v)
            continue
        if not isinstance(v, Str):
            cell.append(v)
            continue
        for p in re.split(r"([\t\n])", v.v[0]):
            if p == "\t":
                row.append(cell)
                cell = []
            elif p == "\n":
                if cell and any(not isinstance(x, Str) or x.v[0].strip() for x in cell):
                    row.append(cell)
                rows.append(row)
                row, cell = [], []
            elif p:
                cell.append(Str(p))
    if any(not isinstance(x, Str) or x.v[0].strip() for x in cell):
        row.append(cell)
    if row:
        rows.append(row)
    return rows


def text(cell):
    out = ""
    for x in cell:
        if isinstance(x, Str):
            out += x.v[0]
        elif isinstance(x, Poly) and x.is_const() and x.cval().denominator == 1:
            out += str(int(x.cval()))
        else:
            return None
    return out.strip()


def value(cell):
    vs = [x for x in cell if not isinstance(x, Str) or x.v[0].strip()]
    return vs[0] if len(vs) == 1 and not isinstance(vs[0], Str) else None


def unit(s):
    return s.replace(" ", "").replace("^", "").strip("()[]").lower() if s is not None else None


class Outs:
    def __init__(self, P, R):
        self.P, self.R = P, R

    def judge(self, what, f, got, exps, wrong=()):
        """wrong: values of other columns"""
        exps = exps if isinstance(exps, list) else [exps]
        rs = [cmpv(got, e) if got is not None else "?" for e in exps]
        if "eq" in rs:
            self.R.held(what)
        elif all(r == "ne" for r in rs) or got is not None and any(w is not None and cmpv(got, w) == "eq" for w in wrong):
            self.R.violation(what, loc(f), "%s: the value is %s, expected %s" % (what, say(got), say(exps[0])))
        else:
            self.R.unknown(what)

    def pi(self):
        return const(self.P, "pi")


def const(P, n):
    from c10 import const as k
    return k(P, n)


def axis(r, i):
    return r[i]


def line_cols(t):
    """suffix: (quantity by node or segment and axis, unit, nodes?)"""
    q = {}
    for k, a in enumerate("xyz"):
        q["p" + a] = (lambda i, k=k: t.r[i][k], "m", 1)
        q["v" + a] = (lambda i, k=k: t.rd[i][k], "m/s", 1)
        q["U" + a] = (None, "m/s", 1)
        q["D" + a] = (lambda i, k=k: t.Dp[i][k] + t.Dq[i][k] + t.Ap[i][k] + t.Aq[i][k], "N", 1)
        q["c" + a] = (lambda i, k=k: t.Td[i][k], "N", 0)
        q["b" + a] = (lambda i, k=k: t.B[i][k], "N", 1)
    q["Ku"] = (lambda i: t.Kurv[i].v, "1/m", 1)
    q["Te"] = (lambda i: psqrt(t.I.sumsq(t.T[i].v.e)), "N", 0)
    q["St"] = (lambda i: pdiv(t.lstr[i].v, t.l[i].v) - C(1), "-", 0)
    q["dSt"] = (lambda i: pdiv(t.ldstr[i].v, t.l[i].v), "-/s", 0)
    return q


def rod_cols(t):
    q = {}
    for k, a in enumerate("xyz"):
        q["p" + a] = (lambda i, k=k: t.r[i][k], "m", 1)
        q["v" + a] = (lambda i, k=k: t.rd[i][k], "m/s", 1)
        q["F" + a] = (lambda i, k=k: t.Fnet[i][k], "N", 1)
    return q


LINE_FLAGS = {"p": ("px", "py", "pz"), "K": ("Ku",), "v": ("vx", "vy", "vz"), "U": ("Ux", "Uy", "Uz"), "D": ("Dx", "Dy", "Dz"), "t": ("Te",),
              "c": ("cx", "cy", "cz"), "s": ("St",), "d": ("dSt",), "b": ("bx", "by", "bz")}
ROD_FLAGS = {"p": ("px", "py", "pz"), "v": ("vx", "vy", "vz"), "f": ("Fx", "Fy", "Fz")}


def written(X, cls, f, pre, keep=(), args=None):
    I = Writer(X.P, cls, keep)
    st = State()
    I.write(st, THIS + ((".", "outfile"),), Ptr(FILE), "std::ofstream *")
    for n, v, t in pre:
        I.write(st, THIS + ((".", n),), v, t)
    if "env" in {x["n"] for _, x in X.P.all_fields(cls)}:
        e = I.read(st, THIS + ((".", "env"),), next(x["t"] for _, x in X.P.all_fields(cls) if x["n"] == "env"))
        if isinstance(e, PtrT):
            I.write(st, (("D", e.v[0]), (".", "WriteUnits")), C(1), "int")
    st, v = I.call_entry(f, THIS, args, st)
    return I, (table(st.ev, FILE) if st is not None else None)


def fields_file(X, cls, what, head, data, flags, cols, n, chosen):
    P, R = X.P, X.R
    pre = [("N", C(n), "unsigned int"), ("channels", Str(chosen), "std::string"), ("openedoutfile", C(1), "int")]
    what = "%s of %d segments, flags %s" % (what, n, chosen)
    try:
        Ih, th = written(X, cls, head, pre, ("Catenary", "setDependentStates", "getWaterDepth"))
        I, tr = written(X, cls, data, pre, ("openoutput",))
    except (Terminated, Missing):
        th = tr = None
    if th is None or tr is None or len(th) < 2 or not tr:
        return R.unknown("%s: what is written" % what)
    names, units, row = [text(c) for c in th[0]], [text(c) for c in th[1]], tr[0]
    want = 1 + sum((n + 1 if cols_of(P, cls, s)[2] else n) for k in chosen for s in flags[k])
    if any(c is None for c in names) or any(c is None for c in units):
        return R.unknown("%s: what is written" % what)
    for k, (r, f) in {"names": (names, head), "units": (units, head), "values": (row, data)}.items():
        if len(r) == want:
            R.held("%s: number of %s" % (what, k))
        else:
            R.violation("%s: number of %s" % (what, k), loc(f), "%s: %d %s for %d columns" % (what, len(r), k, want))
    if not (len(names) == len(units) == len(row)):
        return
    t = Ref(I, THIS, cls)
    q = cols(t)
    seen = set()
    for k, (nm, un, cell) in enumerate(zip(names, units, row)):
        w = "%s: column %s" % (what, nm)
        if k == 0:
            X.judge(w, data, value(cell), I.sym(("in", (("P", data["params"][0]["n"]),)), "double"))
            if unit(un) != "s":
                R.violation(w + ": unit", loc(head), "%s: the unit of time is %s" % (what, un))
            continue
        m = re.match(r"(?:Node|Seg)(\d+)([A-Za-z]+)$", nm)
        if nm in seen:
            R.violation(w + ": twice", loc(head), "%s: the name %s is given twice" % (what, nm))
            continue
        seen.add(nm)
        if not m or m.group(2) not in q:
            R.unknown(w)
            continue
        fn, u, node = q[m.group(2)]
        i = int(m.group(1)) - (0 if node else 1)
        if not 0 <= i < n + (1 if node else 0):
            R.violation(w + ": number", loc(head), "%s: there is no %s" % (what, nm))
            continue
        if unit(un) == u.lower():
            R.held(w + ": unit")
        else:
            R.violation(w + ": unit", loc(head), "%s: the unit of %s is %s, expected %s" % (what, nm, un, u))
        if fn is None:
            continue
        X.judge(w, data, value(cell), fn(i))


def cols_of(P, cls, s):
    class Nil:
        def __getattr__(self, n):
            return None
    return (line_cols if cls.endswith("Line") else rod_cols)(Nil())[s]


@guarded
def line_files(X, _=None):
    f, g = method(X.P, NS + "Line", "initialize"), method(X.P, NS + "Line", "Output")
    if f is None or g is None:
        return X.R.unknown("output file of lines")
    for n, ch in [(2, c) for c in LINE_FLAGS] + [(1, "".join(LINE_FLAGS)), (3, "".join(LINE_FLAGS)), (2, "ptc"), (2, "vDsb"), (2, "sKd")]:
        fields_file(X, NS + "Line", "file of a line", f, g, LINE_FLAGS, line_cols, n, ch)


@guarded
def rod_files(X, _=None):
    f, g = method(X.P, NS + "Rod", "openoutput") or method(X.P, NS + "Rod", "initialize"), method(X.P, NS + "Rod", "Output")
    if f is None or g is None:
        return X.R.unknown("output file of rods")
    for n, ch in [(2, c) for c in ROD_FLAGS] + [(1, "pvf"), (3, "pvf"), (2, "pf")]:
        fields_file(X, NS + "Rod", "file of a rod", f, g, ROD_FLAGS, rod_cols, n, ch)


NSEG, RSEG = 7, 4
OTYPES = {"L": ("Line", "LineList"), "P": ("Point", "PointList"), "R": ("Rod", "RodList"), "B": ("Body", "BodyList")}
UNITS = {"P": "m", "R": "deg", "V": "m/s", "RV": "deg/s", "A": "m/s2", "RA": "deg/s2", "F": "n", "M": "nm", "T": "n", "S": "frac"}


def xyz(*ks):
    return [(k + a, k, i) for k in ks for i, a in enumerate("XYZ")]


def words():
    """(word, object kind, number, node or None, class of the quantity, component)"""
    out = []
    for long, k in (("Line", "L"), ("l", "L")):
        for num in (1, 3):
            for nd, node in (("N5", 5), ("NA", 0), ("NB", NSEG), ("N0", 0), ("N%d" % NSEG, NSEG), ("", 0)):
                if long == "l" and (num == 3) == (nd in ("N5", "NB")):
                    continue
                for q, c, i in xyz("P", "V", "F"):
                    out.append(("%s%d%s%s" % (long, num, nd, q), k, num, node, c, i))
                for q in ("T", "Ten"):
                    out.append(("%s%d%s%s" % (long, num, nd, q), k, num, node, "T", None))
            for q, e in (("TenA", 0), ("TA", 0), ("TenB", NSEG), ("tb", NSEG)):
                out.append(("%s%d%s" % (long, num, q), k, num, e, "T", None))
    for num in (1, 2, 3):
        out.append(("FairTen%d" % num, "L", num, NSEG, "T", None))
        out.append(("AnchTen%d" % num, "L", num, 0, "T", None))
    for long, num in (("Point", 1), ("P", 3)):
        for q, c, i in xyz("P", "V", "A", "F"):
            out.append(("%s%d%s" % (long, num, q), "P", num, None, c, i))
        for q in ("T", "TEN"):
            out.append(("%s%d%s" % (long, num, q), "P", num, None, "T", None))
    for long, num in (("Rod", 1), ("R", 3)):
        for q, c, i in xyz("P", "V", "A", "F", "M") + [x for x in xyz("R", "RV", "RA") if x[2] < 2]:
            out.append(("%s%d%s" % (long, num, q), "R", num, None, c, i))
        for q, c in (("TenA", "TA"), ("TA", "TA"), ("TenB", "TB"), ("TB", "TB"), ("Sub", "S")):
            out.append(("%s%d%s" % (long, num, q), "R", num, None, c, None))
        for nd, node in (("N2", 2), ("NA", 0), ("NB", RSEG), ("N%d" % RSEG, RSEG)):
            for q, c, i in xyz("P", "V", "F"):
                out.append(("%s%d%s%s" % (long, num, nd, q), "R", num, node, c, i))
    for long, num in (("Body", 1), ("B", 3)):
        for q, c, i in xyz("P", "V", "A", "F", "M", "R", "RV", "RA"):
            out.append(("%s%d%s" % (long, num, q), "B", num, None, c, i))
        for q in ("T", "TEN"):
            out.append(("%s%d%s" % (long, num, q), "B", num, None, "T", None))
    return out


FIELDS = (("QType", "int"), ("OType", "int"), ("NodeID", "int"), ("ObjID", "int"))


def expected(X, t, pi, k, node, c, i):
    """alternatives for the value of a channel"""
    if k == "L":
        if c == "P":
            return [t.r[node][i]]
        if c == "V":
            return [t.rd[node][i]]
        if c == "F":
            return [("call", "getNodeForce", node, i)]
        return [("norm", "getNodeForce" if node in (0, NSEG) else "getNodeTen", node)]
    if k == "P":
        return [{"P": lambda: t.r[i], "V": lambda: t.rd[i], "A": lambda: t.acc[i], "F": lambda: t.Fnet[i], "T": lambda: psqrt(t.I.sumsq(t.Fnet.v.e))}[c]()]
    deg = pdiv(C(180), pi)
    if k == "R" and node is not None:
        return [{"P": lambda: t.r[node][i], "V": lambda: t.rd[node][i], "F": lambda: t.Fnet[node][i]}[c]()]
    acc = (lambda: t.acc6) if k == "R" else (lambda: t.a6)
    if c == "P":
        return [t.r7.pos[i]]
    if c == "V":
        return [t.v6[i]]
    if c == "RV":
        return [t.v6[3 + i] * deg]
    if c == "A":
        return [acc()[i]]
    if c == "RA":
        return [acc()[3 + i] * deg]
    if c in ("F", "M"):
        return [("call", "getFnet", None, i + (3 if c == "M" else 0))]
    if c == "R" and k == "R":
        return [(t.roll, t.pitch)[i].v * deg]
    if c == "R":
        return [("euler", i)]
    if c in ("TA", "TB"):
        return [psqrt(t.I.sumsq(getattr(t, "Fext" + c[1]).v.e))]
    if c == "S":
        return [pdiv(sum((t.VOF[j].v for j in range(RSEG + 1)), ZERO), C(RSEG + 1))]
    return [("norm", "getFnet", None), psqrt(t.I.sumsq(t.F6net.v.e[:3]))]


def evaluate(P, cls, name, node, base):
    """value of a method of the object in its initial state"""
    f = method(P, NS + cls, name)
    if f is None:
        raise Missing(name)
    I, st = Writer(P, NS + cls), State()
    setn(I, st, base, cls)
    I.dyn[base] = NS + cls
    st, v = I.call_entry(f, base, {f["params"][0]["n"]: C(node)} if node is not None else None, st)
    return I.rdplace(st, v) if isinstance(v, Place) else v


def setn(I, st, base, cls):
    n = {"Line": NSEG, "Rod": RSEG}.get(cls)
    if n:
        I.write(st, base + ((".", "N"),), C(n), "unsigned int")
        for l in ("r", "rd", "Fnet", "VOF"):
            I.write(st, base + ((".", l), (".", "#size")), C(n + 1), "int")


@guarded
def channels(X, _=None):
    """a word of the OUTPUT section: the value that its column holds, its heading and its unit"""
    P, R = X.P, X.R
    f, g = method(P, MD, "ReadInFile"), method(P, MD, "GetOutput", 1)
    if f is None or g is None:
        return R.unknown("output channels")
    ws = words()
    from c14 import PARTS
    rows = {"LINE TYPES": [({0: "rope"}, 10)], "ROD TYPES": [({0: "can"}, 7)], "BODIES": [({1: "Free"}, 14)] * 3, "POINTS": [({1: "Fixed"}, 9)] * 3,
            "RODS": [({1: "can", 2: "Free", 9: str(RSEG)}, 11)] * 3, "LINES": [({1: "rope", 2: "1", 3: "2", 5: str(NSEG)}, 7)] * 3}
    parts = {(r, k): 1 for r in (30, 31, 32) for k in (9, 10, 12, 13)}
    step = 24
    for a in range(0, len(ws), step):
        part = ws[a:a + step]
        rs = dict(rows, OUTPUT=[(dict(enumerate(w[0] for w in part[:step // 2])), len(part[:step // 2])), (dict(enumerate(w[0] for w in part[step // 2:])), len(part[step // 2:]))])
        rs["OUTPUT"] = [r for r in rs["OUTPUT"] if r[1]]
        try:
            F = File(P, f, rs, parts, same=False)
        except Terminated:
            F = None
        n = F.I.read(F.st, THIS + ((".", "outChans"), (".", "#size")), "int") if F is not None and F.st is not None else None
        if not isinstance(n, Poly) or not n.is_const() or not F.accepted():
            R.unknown("output channels %s to %s" % (part[0][0], part[-1][0]))
            continue
        if n.cval() != len(part):
            R.violation("number of channels", loc(f), "the words %s give %d output channels" % (" ".join(w[0] for w in part), n.cval()))
            continue
        for i, w in enumerate(part):
            channel(X, F, i, w, f, g)


def channel(X, F, idx, w, f, g):
    P, R = X.P, X.R
    word, k, num, node, c, comp = w
    base = THIS + ((".", "outChans"), ("[", C(idx)))
    get = lambda n, t: F.I.read(F.st, base + ((".", n),), t)
    what = "channel %s" % word
    nm, un = get("Name", "std::string"), literal(P, get("Units", "std::string"))
    if isinstance(nm, Str):
        if nm.v[0].lower() == word.lower():
            R.held(what + ": heading")
        else:
            R.violation(what + ": heading", loc(f), "%s: the heading is %s" % (what, nm.v[0]))
    else:
        R.unknown(what + ": heading")
    u = UNITS[c if c in UNITS else c[0]]
    if isinstance(un, Str):
        if unit(un.v[0]) == u:
            R.held(what + ": unit")
        else:
            R.violation(what + ": unit", loc(f), "%s: the unit is %s, expected %s" % (what, un.v[0], u))
    else:
        R.unknown(what + ": unit")
    vs = {n: get(n, t) for n, t in FIELDS}
    if any(not (isinstance(v, Poly) and v.is_const()) for n, v in vs.items() if not (n == "NodeID" and k in "PB")):
        return R.unknown(what)
    try:
        got, exps = output(P, g, vs, k, num, node, c, comp)
    except (Terminated, Missing):
        return R.unknown(what)
    if type(got) is str:
        return R.violation(what, loc(f), "%s: %s" % (what, got))
    rs = [cmpv(got, e) if got is not None and e is not None else "?" for e in exps]
    other = [q.e[j] * pdiv(C(180), const(P, "pi")) for (kk, nn, m), q in [x for x in MEMO.items() if len(x[0]) == 3] for j in range(3) if isinstance(q, Mat) and not (k == "B" and c == "R" and nn == num and j == comp)]
    if "eq" in rs:
        R.held(what)
    elif all(r == "ne" for r in rs) or c == "R" and any(cmpv(got, o) == "eq" for o in other):
        R.violation(what, loc(method(P, NS + OTYPES[k][0], "Get%sOutput" % OTYPES[k][0]) or g), "%s: the value is %s, expected %s" % (what, say(got), say(exps[0])))
    else:
        R.unknown(what)


MEMO = {}


def QT(P):
    return next(x["t"] for _, x in P.all_fields(NS + "XYZQuat") if x["n"] == "quat")


def literal(P, v):
    """text in a table of the library"""
    if isinstance(v, PtrT) and type(v.v[0]) is tuple and v.v[0][0] == "in" and len(v.v[0][1]) == 2 and v.v[0][1][0][0] == "G" and v.v[0][1][1][0] == "[":
        n, i = v.v[0][1][0][1], cidx(v.v[0][1][1][1])
        for g in P.globals.values():
            a = (g.get("i") or {}).get("a") if g["qn"] == n and not g.get("decl") else None
            if a and i is not None and 0 <= i < len(a) and strip(a[i]).get("k") == "str":
                return Str(strip(a[i])["v"])
    return v


def output(P, g, vs, k, num, node, c, comp):
    cls, lst = OTYPES[k]
    I = Writer(P, MD)
    st = State()
    ch = (("V", "channel", 1),)
    for n, t in FIELDS:
        v = vs[n]
        I.write(st, ch + ((".", n),), v if isinstance(v, Poly) and v.is_const() else C(-1), t)
    ref = getattr(Ref(I, THIS, MD), lst)
    obj = ref[num - 1]._obj()
    for i in range(3):
        for l, cl in OTYPES.values():
            o = getattr(Ref(I, THIS, MD), cl)[i]._obj()
            I.dyn[o.path] = NS + l
            setn(I, st, o.path, l)
    for l in OTYPES.values():
        I.write(st, THIS + ((".", l[1]), (".", "#size")), C(3), "int")
    st, v = I.call_entry(g, THIS, {g["params"][0]["n"]: Place(ch, "OutChanProps")}, st)
    pi = const(P, "pi")
    exps = []
    for e in expected(None, obj, pi, k, node, c, comp):
        if type(e) is not tuple:
            exps.append(e)
            continue
        if e[0] == "euler":
            key = (k, num, "euler")
            if key not in MEMO:
                h = [x for x in P.funcs.values() if x["qn"].endswith("::Quat2Euler") and x.get("body")][0]
                J = Writer(P, None)
                s2, q = J.call_entry(h, None, {h["params"][0]["n"]: Place(obj.path + ((".", "r7"), (".", "quat")), QT(P))}, State())
                MEMO[key] = q
            q = MEMO[key]
            exps.append(q.e[e[1]] * pdiv(C(180), pi) if isinstance(q, Mat) else None)
            continue
        key = (k, num, e[1], e[2])
        if key not in MEMO:
            MEMO[key] = evaluate(P, cls, e[1], e[2], obj.path)
        q = MEMO[key]
        if not isinstance(q, Mat):
            exps.append(None)
        elif e[0] == "norm":
            exps.append(psqrt(I.sumsq(q.e[:3])))
        else:
            exps.append(q.e[e[3]])
    return v, exps


@guarded
def body_files(X, _=None):
    P, R, cls = X.P, X.R, NS + "Body"
    f, g = method(P, cls, "initialize"), method(P, cls, "Output")
    if f is None or g is None:
        return R.unknown("output file of bodies")
    pre = [("type", C(enum_vals(P, cls)["FREE"]), "int")]
    _, th = written(X, cls, f, pre, ("setDependentStates",))
    I, tr = written(X, cls, g, pre)
    if not th or len(th) < 2 or not tr:
        return R.unknown("file of a body: what is written")
    names, units, row = [text(c) for c in th[0]], [text(c) for c in th[1]], tr[0]
    for k, (r, h) in {"names": (names, f), "units": (units, f), "values": (row, g)}.items():
        if len(r) == 7:
            R.held("file of a body: number of %s" % k)
        else:
            R.violation("file of a body: number of %s" % k, loc(h), "file of a body: %d %s for 7 columns" % (len(r), k))
    if not len(names) == len(units) == len(row) == 7:
        return
    t = Ref(I, THIS, cls)
    h = [x for x in P.funcs.values() if x["qn"].endswith("::Quat2Euler") and x.get("body")]
    q = None
    if len(h) == 1:
        _, q = Writer(P, None).call_entry(h[0], None, {h[0]["params"][0]["n"]: Place(THIS + ((".", "r7"), (".", "quat")), QT(P))}, State())
    ang = [e * pdiv(C(180), const(P, "pi")) for e in q.e] if isinstance(q, Mat) else [None] * 3
    want = {"Time": (I.sym(("in", (("P", g["params"][0]["n"]),)), "double"), "s"), "x": (t.r7.pos[0], "m"), "y": (t.r7.pos[1], "m"), "z": (t.r7.pos[2], "m"),
            "roll": (ang[0], "deg"), "pitch": (ang[1], "deg"), "yaw": (ang[2], "deg")}
    for nm, un, cell in zip(names, units, row):
        w = "file of a body: column %s" % nm
        if nm not in want:
            R.unknown(w)
            continue
        v, u = want[nm]
        if unit(un) == u:
            R.held(w + ": unit")
        else:
            R.violation(w + ": unit", loc(f), "file of a body: the unit of %s is %s" % (nm, un))
        X.judge(w, g, value(cell), v, [x for k, (x, _) in want.items() if k != nm])


MAIN = THIS + ((".", "outfileMain"),)


def chans(I, st, n):
    """n channels, each a quantity of another body"""
    base = THIS + ((".", "outChans"),)
    I.write(st, base + ((".", "#size"),), C(n), "int")
    for i in range(n):
        for k, v, t in (("Name", Str("name%d" % i), "std::string"), ("Units", Str("unit%d" % i), "std::string"), ("OType", C(4), "int"),
                        ("ObjID", C(i + 1), "int"), ("NodeID", C(-1), "int"), ("QType", C(1), "int")):
            I.write(st, base + (("[", C(i)), (".", k)), v, t)
    for l in OTYPES.values():
        I.write(st, THIS + ((".", l[1]), (".", "#size")), C(n if l[0] == "Body" else 0), "int")
    for i in range(n):
        I.dyn[Ref(I, THIS, MD).BodyList[i]._obj().path] = NS + "Body"


@guarded
def main_rows(X, _=None):
    """the row of the main file, and the steps at which rows are written"""
    P, R = X.P, X.R
    f = method(P, MD, "AllOutput", 2)
    if f is None:
        return R.unknown("rows of the main file")
    pt, pd = (p["n"] for p in f["params"])
    for n in (0, 1, 3):
        I, st = Writer(P, MD, ("Output",)), State()
        chans(I, st, n)
        I.write(st, THIS + ((".", "dtOut"),), ZERO, "double")
        st, v = I.call_entry(f, THIS, None, st)
        t = table(st.ev, MAIN) if st is not None else None
        what = "row of the main file with %d channels" % n
        if t is None:
            R.unknown(what)
            continue
        if len(t) != 1 or len(t[0]) != n + 1:
            R.violation(what, loc(f), "%s: %s columns written" % (what, [len(r) for r in t]))
            continue
        R.held(what)
        B = Ref(I, THIS, MD).BodyList
        X.judge(what + ": time", f, value(t[0][0]), I.sym(("in", (("P", pt),)), "double"))
        for i in range(n):
            X.judge("%s: column %d" % (what, i + 1), f, value(t[0][i + 1]), B[i].r7.pos[0])
    for do in (Q(1), Q(1, 2), Q(0)):
        for dt in (Q(1, 4), Q(1, 8), Q(1), Q(3)):
            for k in range(1, 14):
                t = dt * k
                want = do == 0 or (t // do) > ((t - dt) // do)
                I, st = Writer(P, MD, ("Output",)), State()
                chans(I, st, 1)
                I.write(st, THIS + ((".", "dtOut"),), C(do), "double")
                st, v = I.call_entry(f, THIS, {pt: C(t), pd: C(dt)}, st)
                tb = table(st.ev, MAIN) if st is not None else None
                what = "output step %s: the step from %s to %s" % (do, t - dt, t)
                if tb is None:
                    R.unknown(what)
                elif bool(tb) == want:
                    R.held(what)
                else:
                    R.violation(what, loc(f), "%s: a row is %swritten" % (what, "" if tb else "not "))


@guarded
def main_head(X, _=None):
    """names and units above the rows of the main file"""
    P, R = X.P, X.R
    f = [f for f in P.funcs.values() if f["qn"] == MD + "::Init" and f.get("body")]
    if len(f) != 1:
        return R.unknown("heading of the main file")
    f = f[0]
    for n in (0, 1, 3):
        for u in (0, 1):
            I, st = Writer(P, MD, ("AllOutput", "icLegacy", "icStationary", "GetForces"), (None, "", MD)), State()
            chans(I, st, n)
            for _, x in P.all_fields(MD):
                if re.match(r"(std::)?vector<", x["t"]) and x["n"] not in ("outChans",):
                    I.write(st, THIS + ((".", x["n"]), (".", "#size")), ZERO, "int")
            e = I.read(st, THIS + ((".", "env"),), next(x["t"] for _, x in P.all_fields(MD) if x["n"] == "env"))
            if isinstance(e, PtrT):
                I.write(st, (("D", e.v[0]), (".", "WriteUnits")), C(u), "int")
            st, v = I.call_entry(f, THIS, None, st)
            t = table(st.ev, MAIN) if st is not None else None
            what = "heading of the main file with %d channels%s" % (n, " and units" if u else "")
            if t is None:
                R.unknown(what)
                continue
            exp = [["Time"] + ["name%d" % i for i in range(n)]] + ([["(s)"] + ["unit%d" % i for i in range(n)]] if u else [])
            got = [[text(c) for c in r] for r in t]
            if [[s.lower().strip("()") if s else s for s in r] for r in got] == [[s.lower().strip("()") for s in r] for r in exp]:
                R.held(what)
            elif any(s is None for r in got for s in r):
                R.unknown(what)
            else:
                R.violation(what, loc(f), "%s: %s is written, expected %s" % (what, got, exp))


@guarded
def stepping(X, _=None):
    """a step hands its new time to the output"""
    P, R = X.P, X.R
    f = [f for f in P.funcs.values() if f["qn"] == MD + "::Step" and f.get("body")]
    if len(f) != 1 or len(f[0]["params"]) != 5:
        return R.unknown("output of a step")
    f = f[0]
    pt, pd = (p["n"] for p in f["params"][3:])
    I, st = Writer(P, MD, ("AllOutput", "GetForces"), (None, "", MD)), State()
    for _, x in P.all_fields(MD):
        if re.match(r"(std::)?vector<", x["t"]):
            I.write(st, THIS + ((".", x["n"]), (".", "#size")), ZERO, "int")
    st.assume(f_gt0(I.sym(("in", (("P", pd),)), "double")))
    st, v = I.call_entry(f, THIS, None, st)
    cs = [c for c in all_calls(st.ev) if c.name == "AllOutput"] if st is not None else []
    what = "output of a step"
    if len(cs) != 1 or cs[0].loops:
        return R.unknown(what)
    t = I.read(st, (("P", pt),), "double")
    if t == cs[0].args[0] or isinstance(t, IteV) and cs[0].args[0] in walk(t):
        R.held(what + ": time")
    else:
        X.judge(what + ": time", f, cs[0].args[0], t, [I.sym(("in", (("P", pt),)), "double")])
    X.judge(what + ": step", f, cs[0].args[1], I.sym(("in", (("P", pd),)), "double"))


def run(P, R):
    X = Outs(P, R)
    line_files(X)
    rod_files(X)
    body_files(X)
    channels(X)
    main_rows(X)
    main_head(X)
    stepping(X)
