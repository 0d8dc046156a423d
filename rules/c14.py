"""C14: the objects simulated are the ones the input file describes."""
from reader import *
from util import *
from fractions import Fraction
from c10 import const
from c09 import guarded, loc

Q = Fraction


def entry(P):
    fs = [f for f in P.funcs.values() if f["qn"] == MD + "::ReadInFile" and f.get("body")]
    return fs[0] if fs else None


def say(v):
    return repr(v)[:160]


class Judge:
    def __init__(self, P, R):
        self.P, self.R, self.f = P, R, entry(P)

    def file(self, rows, parts=None, **kw):
        return File(self.P, self.f, rows, parts, **kw)

    def read(self, what, rows, parts=None, **kw):
        F = self.file(rows, parts, **kw)
        if F.rejected():
            self.R.violation("read|" + what, loc(self.f), "%s: the file is rejected" % what)
            return None
        if not F.accepted():
            self.R.unknown("%s: whether the file is accepted" % what)
            return None
        self.R.held("%s: accepted" % what)
        return F

    def same(self, what, got, exps):
        exps = exps if isinstance(exps, list) else [exps]
        if got is None:
            return self.R.unknown(what)
        if isinstance(got, Place):
            return self.R.unknown(what)
        rs = []
        for e in exps:
            if isinstance(got, Str) and isinstance(e, Str) or isinstance(got, Ptr) and isinstance(e, Ptr):
                rs.append("eq" if got == e else "ne")
            elif isinstance(e, (Op, Str)) and isinstance(got, (Op, Str)):
                rs.append("eq" if got == e else "?" if vague(got) else "ne")
            else:
                rs.append(cmpv(got, e))
        if "eq" in rs:
            self.R.held(what)
        elif all(r == "ne" for r in rs):
            self.R.violation(what, loc(self.f), "%s: got %s, expected %s" % (what, say(got), say(exps[0])))
        else:
            self.R.unknown(what)


def vec(*es):
    return Mat(len(es), 1, tuple(es))


def run(P, R):
    J = Judge(P, R)
    if J.f is None:
        return R.unknown("no reader of the input file found")
    lines(J, P)
    rods(J, P)
    bodies(J, P)
    points(J, P)
    ends(J, P)
    curves(J, P)
    groups(J, P)


T2 = [({0: "chain"}, 10), ({0: "rope"}, 10)]
FIXED2 = [({1: "Fixed"}, 9), ({1: "Fixed"}, 9)]


@guarded
def lines(J, P):
    pi = const(P, "pi")
    for n, row in (("chain", 10), ("rope", 11)):
        F = J.read("a line of type %s" % n, {"LINE TYPES": T2, "POINTS": FIXED2, "LINES": [({1: n, 2: "1", 3: "2"}, 7)]}, same=False)
        if F is None:
            continue
        c = F.I.col
        d = c(row, 1)
        A = pi * d * d * C(Q(1, 4))
        for fld, exp, doc in (("d", d, "diameter"), ("A", A, "cross section"), ("rho", pdiv(c(row, 2), A), "density"), ("E", pdiv(c(row, 3), A), "stiffness"),
                              ("BAin", c(row, 4), "internal damping"), ("EI", c(row, 5), "bending stiffness"), ("Cdn", c(row, 6), "transverse drag"),
                              ("Can", c(row, 7), "transverse added mass"), ("Cdt", c(row, 8), "axial drag"), ("Cat", c(row, 9), "axial added mass"),
                              ("UnstrLen", c(60, 4), "unstretched length"), ("N", F.I.whole(60, 5), "number of segments"), ("number", F.I.whole(60, 0), "number")):
            J.same("%s of a line of type %s" % (doc, n), F.field("LINES", 0, fld), exp)
        for fld in ("nEApoints", "nCpoints", "nEIpoints"):
            J.same("no %s in a line of type %s with plain coefficients" % (fld, n), F.field("LINES", 0, fld), ZERO)
        J.same("output flags of a line", F.field("LINES", 0, "channels"), F.I.text(60, 6))


ROD_WORDS = {"FIXED": ("Fixed", "ANCHOR", "fix"), "PINNED": ("Pinned", "PIN"), "COUPLED": ("Coupled", "VESSEL", "Ves", "CPLD"),
             "CPLDPIN": ("VesselPinned", "VESPIN", "CpldPin", "CoupledPinned"), "FREE": ("Free",)}
R2 = [({0: "can"}, 7), ({0: "pipe"}, 7)]
BODY2 = [({1: "Coupled"}, 14), ({1: "Coupled"}, 14)]
PARTS = {(r, k): 1 for r in (30, 31) for k in (9, 10, 12, 13)}


@guarded
def rods(J, P):
    pi = const(P, "pi")
    types = enum_vals(P, "moordyn::Rod")
    for n, row in (("can", 20), ("pipe", 21)):
        F = J.read("a rod of type %s" % n, {"ROD TYPES": R2, "RODS": [({1: n, 2: "Coupled"}, 11)]}, same=False)
        if F is None:
            continue
        c = F.I.col
        d = c(row, 1)
        for fld, exp, doc in (("d", d, "diameter"), ("rho", pdiv(C(4) * c(row, 2), pi * d * d), "density"), ("Cdn", c(row, 3), "transverse drag"),
                              ("Can", c(row, 4), "transverse added mass"), ("CdEnd", c(row, 5), "end drag"), ("CaEnd", c(row, 6), "end added mass"),
                              ("N", F.I.whole(50, 9), "number of segments"), ("number", F.I.whole(50, 0), "number")):
            J.same("%s of a rod of type %s" % (doc, n), F.field("RODS", 0, fld), exp)
        J.same("output flags of a rod", F.field("RODS", 0, "channels"), F.I.text(50, 10))
    place = lambda F: vec(*[F.I.col(50, k) for k in range(3, 9)])
    for t, ws in ROD_WORDS.items():
        for w in ws:
            F = J.read("a rod with attachment %s" % w, {"ROD TYPES": R2[:1], "RODS": [({1: "can", 2: w}, 11)]}, same=False)
            if F is None:
                continue
            J.same("type of a rod with attachment %s" % w, F.field("RODS", 0, "type"), C(types[t]))
            held(J, F, "a rod with attachment %s" % w, "addRod", "RODS", "ground" if t in ("FIXED", "PINNED") else None, place(F))
    for w, t, b in (("Body1", "FIXED", 0), ("body2", "FIXED", 1), ("Body2Pinned", "PINNED", 1), ("BODY1PIN", "PINNED", 0)):
        F = J.read("a rod with attachment %s" % w, {"ROD TYPES": R2[:1], "BODIES": BODY2, "RODS": [({1: "can", 2: w}, 11)]}, PARTS, same=False)
        if F is not None:
            J.same("type of a rod with attachment %s" % w, F.field("RODS", 0, "type"), C(types[t]))
            held(J, F, "a rod with attachment %s" % w, "addRod", "RODS", b, place(F))


def held(J, F, what, meth, sec, body, place):
    """which body carries the object, and where"""
    got = []
    o = F.obj(sec, 0)
    lst, rel = {"addRod": ("attachedR", "r6RodRel"), "addPoint": ("attachedP", "rPointRel")}[meth]
    bodies = [("ground", F.member("GroundBody"))] + [(i, F.obj("BODIES", i)) for i in range(2)]
    for k, b in bodies:
        if not isinstance(b, Ptr):
            if k == "ground":
                return J.R.unknown("%s: which body carries it" % what)
            continue
        n = F.I.read(F.st, b.v[0] + ((".", lst), (".", "#size")), "int")
        if not isinstance(n, Poly) or not n.is_const():
            return J.R.unknown("%s: which body carries it" % what)
        for i in range(int(n.cval())):
            got.append((k, F.I.read(F.st, b.v[0] + ((".", lst), ("[", C(i))), KIND[sec] + " *"), b, i))
    want = [] if body is None else [body]
    if [g[0] for g in got] != want:
        return J.R.violation("carrier|" + what, loc(J.f), "%s: carried by %s, expected %s" % (what, [g[0] for g in got], want))
    J.R.held("%s: which body carries it" % what)
    for k, v, b, i in got:
        J.same("%s: the object carried" % what, v, o)
        if sec == "RODS":
            got6 = F.I.read(F.st, b.v[0] + ((".", rel), ("[", C(i))), "Eigen::Matrix<double, 6, 1>")
            if isinstance(got6, Mat) and len(got6.e) == 6:
                J.same("%s: end A relative to the body" % what, vec(*got6.e[:3]), vec(*place.e[:3]))
                d = [place.e[3 + k] - place.e[k] for k in range(3)]
                for k in range(3):
                    # a unit vector: parallel to the rod, checked crosswise
                    J.same("%s: direction component %d" % (what, k), got6.e[3 + k] * d[(k + 1) % 3], got6.e[3 + (k + 1) % 3] * d[k])
                    signs = set()
                    for _, q in cases(got6.e[3 + k]):
                        m = [(t, v) for t, v in q.t.items() if any(a == list(place.e[3 + k].atoms())[0] and e == 1 for a, e in t)]
                        signs |= {v > 0 for t, v in m if len(m) == 1}
                    if signs == {False}:
                        J.R.violation("%s: direction" % what, loc(J.f), "%s: the direction runs from end B to end A" % what)
            else:
                J.R.unknown("%s: place relative to the body" % what)
        if sec == "POINTS":
            J.same("%s: place relative to the body" % what, F.I.read(F.st, b.v[0] + ((".", rel), ("[", C(i))), "Eigen::Matrix<double, 3, 1>"), place)


BODY_WORDS = {"FIXED": ("Fixed", "ANCHOR", "fix"), "COUPLED": ("Coupled", "VESSEL", "Ves", "CPLD"), "CPLDPIN": ("VesselPinned", "VESPIN", "CpldPin", "CoupledPinned"), "FREE": ("Free",)}


@guarded
def bodies(J, P):
    types = enum_vals(P, "moordyn::Body")
    deg = const(P, "pi") * C(Q(1, 180))
    for t, ws in BODY_WORDS.items():
        for w in ws:
            F = J.read("a body with attachment %s" % w, {"BODIES": [({1: w}, 14)]}, PARTS)
            if F is None:
                continue
            c = F.I.col
            J.same("type of a body with attachment %s" % w, F.field("BODIES", 0, "type"), C(types[t]))
            J.same("number of a body", F.field("BODIES", 0, "number"), F.I.whole(30, 0))
            J.same("position of a %s body" % w, F.field("BODIES", 0, "body_r6"), vec(*[c(30, 2 + k) * (ONE if k < 3 else deg) for k in range(6)]))
    for t in ("Free", "CpldPin"):
        for cg, inert, cda, ca in ((1, 1, 1, 1), (3, 3, 2, 3), (3, 1, 3, 1), (1, 3, 6, 3)):
            what = "a %s body with %d CG, %d I, %d CdA and %d Ca values" % (t, cg, inert, cda, ca)
            F = J.read(what, {"BODIES": [({1: t}, 14)]}, {(30, 9): cg, (30, 10): inert, (30, 12): cda, (30, 13): ca})
            if F is None:
                continue
            c = F.I.col
            p = lambda k, n, i: c(30, k, i if n > 1 else 0)
            J.same("mass of " + what, F.field("BODIES", 0, "bodyM"), c(30, 8))
            J.same("volume of " + what, F.field("BODIES", 0, "bodyV"), c(30, 11))
            J.same("centre of gravity of " + what, F.field("BODIES", 0, "body_rCG"), vec(*[p(9, cg, i) for i in range(3)]) if cg == 3 else vec(ZERO, ZERO, c(30, 9, 0)))
            J.same("inertia of " + what, F.field("BODIES", 0, "bodyI"), vec(*[p(10, inert, i) for i in range(3)]))
            n = {1: [0] * 6, 2: [0] * 3 + [1] * 3, 3: [0, 1, 2] * 2, 6: list(range(6))}[cda]
            J.same("drag of " + what, F.field("BODIES", 0, "bodyCdA"), vec(*[c(30, 12, i) for i in n]))
            J.same("added mass of " + what, F.field("BODIES", 0, "bodyCa"), vec(*[p(13, ca, i) for i in range(3)] + [ZERO] * 3))


POINT_WORDS = {"FIXED": ("Fixed", "ANCHOR", "fix"), "COUPLED": ("Coupled", "VESSEL", "Ves", "CPLD", "Fairlead"), "FREE": ("Free", "Point", "Connect", "Con")}


@guarded
def points(J, P):
    types = enum_vals(P, "moordyn::Point")
    for t, ws in POINT_WORDS.items():
        for w in ws:
            for n in (9, 12):
                what = "a point with attachment %s and %d columns" % (w, n)
                F = J.read(what, {"POINTS": [({1: w}, n)]})
                if F is None:
                    continue
                c = F.I.col
                pos = vec(*[c(40, k) for k in (2, 3, 4)])
                J.same("type of " + what, F.field("POINTS", 0, "type"), C(types[t]))
                for fld, exp, doc in (("number", F.I.whole(40, 0), "number"), ("r", pos, "position"), ("pointM", c(40, 5), "mass"), ("pointV", c(40, 6), "volume"),
                                      ("pointF", vec(*[c(40, k) for k in (7, 8, 9)]) if n == 12 else vec(ZERO, ZERO, ZERO), "applied force"),
                                      ("pointCdA", c(40, 10 if n == 12 else 7), "drag"), ("pointCa", c(40, 11 if n == 12 else 8), "added mass")):
                    J.same("%s of %s" % (doc, what), F.field("POINTS", 0, fld), exp)
                held(J, F, what, "addPoint", "POINTS", "ground" if t == "FIXED" else None, pos)
    for w, b in (("Body1", 0), ("body2", 1)):
        what = "a point with attachment %s" % w
        F = J.read(what, {"BODIES": BODY2, "POINTS": [({1: w}, 9)]}, PARTS)
        if F is not None:
            J.same("type of " + what, F.field("POINTS", 0, "type"), C(types["FIXED"]))
            held(J, F, what, "addPoint", "POINTS", b, vec(*[F.I.col(40, k) for k in (2, 3, 4)]))


@guarded
def ends(J, P):
    """columns AttachA and AttachB"""
    A, B = (next((v for e in P.enums.values() for k, v in e["vals"].items() if k == n), None) if False else v for n, v in (("ENDPOINT_A", 0), ("ENDPOINT_B", 1)))
    places = (("1", "POINTS", 0, "attached"), ("2", "POINTS", 1, "attached"), ("P2", "POINTS", 1, "attached"), ("Con1", "POINTS", 0, "attached"), ("Point2", "POINTS", 1, "attached"),
              ("R1A", "RODS", 0, "attachedA"), ("r2b", "RODS", 1, "attachedB"), ("Rod1B", "RODS", 0, "attachedB"), ("R2A", "RODS", 1, "attachedA"))
    for n, (w, sec, i, lst) in enumerate(places):
        for col, other in ((2, 3), (3, 2)):
            o = places[(n + 4) % len(places)]
            F = J.read("a line with %s in column %s" % (w, "AttachA" if col == 2 else "AttachB"),
                       {"LINE TYPES": T2[:1], "ROD TYPES": R2[:1], "POINTS": FIXED2, "RODS": [({1: "can", 2: "Coupled"}, 11)] * 2, "LINES": [({1: "chain", col: w, other: o[0]}, 7)]}, same=False)
            if F is None:
                continue
            exp = {(sec, i, lst): col - 2, o[1:]: other - 2}
            for s, j, l in (("POINTS", 0, "attached"), ("POINTS", 1, "attached"), ("RODS", 0, "attachedA"), ("RODS", 0, "attachedB"), ("RODS", 1, "attachedA"), ("RODS", 1, "attachedB")):
                what = "a line from %s to %s: lines of %s %d%s" % (w if col == 2 else o[0], o[0] if col == 2 else w, s[:-1].lower(), j + 1, l[8:])
                b = F.obj(s, j)
                if b is None:
                    J.R.unknown(what)
                    continue
                m = F.I.read(F.st, b.v[0] + ((".", l), (".", "#size")), "int")
                k = exp.get((s, j, l))
                J.same("number of " + what, m, C(0 if k is None else 1))
                if k is not None and m == ONE:
                    J.same("end of " + what, F.I.read(F.st, b.v[0] + ((".", l), ("[", ZERO), (".", "end_point")), "int"), C(k))
                    J.same("line of " + what, F.I.read(F.st, b.v[0] + ((".", l), ("[", ZERO), (".", "line")), "moordyn::Line *"), F.obj("LINES", 0))


@guarded
def curves(J, P):
    """tables of points instead of a coefficient: three lines of heading, then a point per line"""
    pi = const(P, "pi")
    for col, n, x, y, doc, per in ((3, "nEApoints", "stiffXs", "stiffYs", "stiffness", True), (4, "nCpoints", "dampXs", "dampYs", "damping", False), (5, "nEIpoints", "bstiffXs", "bstiffYs", "bending stiffness", False)):
        for data, end in (([9, 9, 9, 2, 2, 2], ""), ([9, 9, 9, 2, 2, 2, 0], " ending in a line break")):
            what = "a %s curve%s" % (doc, end)
            F = J.read(what, {"LINE TYPES": [({0: "chain", col: "curve.txt"}, 10)], "POINTS": FIXED2, "LINES": [({1: "chain", 2: "1", 3: "2"}, 7)]}, same=False, data=data)
            if F is None:
                continue
            c = F.I.col
            A = pi * c(10, 1) * c(10, 1) * C(Q(1, 4))
            J.same("number of points of " + what, F.field("LINES", 0, n), C(3))
            for k, (z, m) in enumerate(((x, 3), (y, 3))):
                for i in range(m):
                    v = c(1003 + i, k)
                    o = F.obj("LINES", 0)
                    got = F.I.read(F.st, o.v[0] + ((".", z), ("[", C(i))), "double") if o is not None else None
                    J.same("%s of point %d of %s" % ("value" if k else "argument", i + 1, what), got, pdiv(v, A) if k and per else [v, pdiv(v, A)] if k and col == 4 else v)


@guarded
def groups(J, P):
    """which objects the system integrates and which follow the caller"""
    MEM = {"FREE": "F", "PINNED": "F", "COUPLED": "C", "CPLDPIN": "FC", "FIXED": "X"}
    for sec, words, other, free, cpld, fixed, base, more, parts in (
            ("BODIES", BODY_WORDS, {1: "Coupled"}, "FreeBodyIs", "CpldBodyIs", "FixedBodyIs", 14, {}, {(r, k): 1 for r in (30, 31, 32) for k in (9, 10, 12, 13)}),
            ("RODS", ROD_WORDS, {1: "can", 2: "Coupled"}, "FreeRodIs", "CpldRodIs", None, 11, {"ROD TYPES": R2[:1]}, None),
            ("POINTS", POINT_WORDS, {1: "Coupled"}, "FreePointIs", "CpldPointIs", None, 9, {}, None)):
        col = max(other)
        for t, ws in words.items():
            for w in ws:
                for oth in ("Coupled", "Free"):
                    what = "a %s with attachment %s after one %s" % (KIND[sec].split("::")[-1].lower(), w, oth)
                    F = J.read(what, {**more, sec: [({**other, col: oth}, base), ({**other, col: w}, base)]}, parts, same=False)
                    if F is None:
                        continue
                    for lst, m in ((free, "F"), (cpld, "C"), (fixed, "X")):
                        if lst is None:
                            continue
                        exp = ([0] if m in MEM["COUPLED" if oth == "Coupled" else "FREE"] else []) + ([1] if m in MEM[t] else [])
                        got = F.items(lst)
                        if got is None or not all(isinstance(x, int) for x in got):
                            J.R.unknown("%s: %s" % (what, lst))
                        elif got != exp:
                            J.R.violation("group|%s|%s|%s" % (sec, t, lst), loc(J.f), "%s: %s is %s, expected %s" % (what, lst, got, exp))
                        else:
                            J.R.held("%s: %s" % (what, lst))
