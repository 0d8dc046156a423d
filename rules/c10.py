"""C10: loads and masses are assembled completely."""
from model import *
from drive import *
from cells import *
from fractions import Fraction
from poly import TooBig
import c09
from c09 import THIS, BODY, ROD, POINT, LINE, M, loc, sub, vmul, cross, cat, one, guarded, diff

VEC, MAT, VEC6, MAT6 = ("mat", 3, 1), ("mat", 3, 3), ("mat", 6, 1), ("mat", 6, 6)
GOOD = ("getWaveKin", "getDepthAt", "solveMat6")
KP, JP = (Poly.atom(("v", ("in", (("G", g), (".", "#size"))))) for g in ("#k", "#j"))
NN = [("v", ("in", (("G", g), (".", "#size")))) for g in ("#k", "#j", "#m")]


def unclear(t):
    return type(t) is tuple and len(t) > 0 and t[0] in VAGUE


class LX:
    """one method of a class executed with named intermediate results"""

    def __init__(self, P, cls, f, typ=None, n=None, cut=(), args=None, pre=(), pos=(), **kw):
        self.P, self.cls, self.f, self.typ, self.n = P, cls, f, typ, n
        self.I = Cells(P, cls, cut, **kw)
        st = State()
        if typ is not None:
            self.I.write(st, THIS + ((".", "type"),), C(enum_vals(P, cls)[typ]), "int")
        if n is not None:
            for x in (KP, JP, M):
                st.assume(f_ge0(x, True))
            self.I.write(st, THIS + ((".", "N"),), n, "unsigned int")
        for k, v, t in pre:
            self.I.write(st, THIS + ((".", k),), v, t)
        self.this = Ref(self.I, THIS, cls)
        for k in pos:
            st.assume(f_gt0(getattr(self.this, k).v))
        self.st, self.v = self.I.call_entry(f, THIS, args, st)
        self.what = "%s%s" % (f["qn"][len("moordyn::"):], " of a %s %s" % (typ, cls.rpartition("::")[2].lower()) if typ else "")

    def dead(self):
        return self.st is None

    def ref(self, path):
        r = self.this
        for p in path:
            r = getattr(r, p) if type(p) is str else r[p]
        return r

    def fin(self, *path):
        r = self.ref(path)
        return settle(self.I.read(self.st, r.path, r.ty), NN)

    def ini(self, *path):
        return self.ref(path).v

    def par(self, i):
        p = self.f["params"][i]
        return self.I.sym(("in", (("P", p["n"]),)), p["t"])

    def out(self, i):
        p = self.f["params"][i]
        return settle(self.I.read(self.st, (("P", p["n"]),), p["t"].rstrip("& ")), NN)


def add(*vs):
    out = vs[0]
    for v in vs[1:]:
        out = Mat(out.r, out.c, tuple(a + b for a, b in zip(out.e, v.e)))
    return out


def scal(s, a):
    return Mat(a.r, a.c, tuple(s * x for x in a.e))


def neg(v):
    return Mat(v.r, v.c, tuple(-a for a in v.e))


def tr(v):
    return Mat(v.c, v.r, tuple(v.at(i, j) for j in range(v.c) for i in range(v.r)))


def blk(m, r, c):
    return Mat(3, 3, tuple(m.at(3 * r + i, 3 * c + j) for i in range(3) for j in range(3)))


def six(a, b, c, d):
    """6 x 6 matrix of 3 x 3 blocks"""
    q = ((a, b), (c, d))
    return Mat(6, 6, tuple(q[i // 3][j // 3].at(i % 3, j % 3) for i in range(6) for j in range(6)))


def skew(r):
    x, y, z = r.e
    return Mat(3, 3, (ZERO, z, -y, -z, ZERO, x, y, -x, ZERO))


def shift3(I, r, m):
    """mass matrix m at the offset r, about the origin"""
    H = skew(r)
    mh = I.mm(m, H)
    return six(m, mh, tr(mh), I.mm(I.mm(H, m), tr(H)))


def shift6(I, r, m6):
    H = skew(r)
    m, J, In = blk(m6, 0, 0), blk(m6, 0, 1), blk(m6, 1, 1)
    mh = add(I.mm(m, H), J)
    return six(m, mh, tr(mh), add(I.mm(I.mm(H, m), tr(H)), I.mm(tr(J), H), I.mm(tr(H), J), In))


def mvec(I, m, v):
    return I.mm(m, v)


def verdict(X, got, exps, own=(), full=True):
    """'eq', 'ne' or '?': as named, with the definitions of own put back, with all definitions put back"""
    rs = []
    for e in exps:
        r = cmpv(got, e)
        if r != "eq" and own:
            r = cmpv(settle(X.I.expand(got, own), NN), e)
        if r != "eq" and full and X.I.defs:
            try:
                r2 = cmpv(settle(X.I.expand(got), NN), settle(X.I.expand(e), NN))
            except TooBig:
                r2 = "?"
            r = r2 if r2 != "ne" else r if r == "ne" else "ne"
        rs.append(r)
    return "eq" if "eq" in rs else "ne" if all(r == "ne" for r in rs) else "?"


def judge(R, X, what, got, exps, where=None, own=(), full=True):
    if got is None:
        return R.unknown("%s: %s" % (X.what, what))
    r = verdict(X, got, exps, own, full)
    if r == "eq":
        R.held("%s: %s" % (X.what, what))
    elif r == "ne":
        if own:
            got = settle(X.I.expand(got, own), NN)
        R.violation("%s|%s" % (X.what, what), where or loc(X.f), "%s: %s is wrong: %s" % (X.what, what, diff(got, exps[0])))
    else:
        R.unknown("%s: %s" % (X.what, what))
    return r


def answers(X, lst, meth, obj, args, k, ty):
    """sum over a list of what the i-th element answers"""
    n = getattr(X.this, lst).size
    v = X.I.answer(meth, obj, args, k, ty)
    return Mat(v.r, v.c, tuple(X.I.sumform(x, ("it", 0), n) for x in v.e))


HALF = C(Fraction(1, 2))
IT = Poly.atom(("it", 0))


def line_ends(X, lst, k):
    a = getattr(X.this, lst)[IT]
    return answers(X, lst, "getEndStuff", a.line.v, (a.end_point.v,), k, MAT if k == 2 else VEC)


def solved(R, X, what, acc, Ms, Fs):
    """the acceleration solves M a = F"""
    if not isinstance(acc, Mat) or len(acc.e) != 3:
        return R.unknown("%s: %s" % (X.what, what))
    judge(R, X, what, X.I.mm(Ms, acc), [Fs])


def run(P, R):
    R.rule("Each method that adds up loads is executed abstractly, per type of object, with a name for every intermediate load; the totals are compared "
           "in normal form with the sum of the parts, and the 6 DOF loads and masses with the formulas of a change of reference point.")
    point_rhs(P, R)
    point_deriv(P, R)
    point_net(P, R)
    body_rhs(P, R)
    for t in ("FREE", "CPLDPIN"):
        body_deriv(P, R, t)
    masses(P, R)
    end_stuff(P, R)
    line_loads(P, R)
    for n in (NL, C(2), ONE, ZERO):
        rod_rhs(P, R, n)
    for n in (ONE + M, ZERO):
        rod_net(P, R, n)
    for t, n in (("FREE", ONE + M), ("FREE", ZERO), ("PINNED", ONE + M), ("CPLDPIN", ONE + M)):
        rod_deriv(P, R, t, n)
    R.floor("methods", 6)


# ---------------------------------------------------------------- points
@guarded
def point_rhs(P, R):
    f = one(P, R, POINT, "doRHS", 0)
    if not f:
        return
    X = LX(P, POINT, f)
    env = X.this.env
    g, rho = env.g.v, env.rho_w.v
    m, V = X.ini("pointM"), X.ini("pointV")
    U = X.I.sym(("in", (("X", "getWaveKinPoint", X.ini("waves"), (X.ini("pointId"),)), (".", "#1"), ("[", ZERO))), VEC)
    vi = add(U, neg(X.ini("rd")))
    drag = scal(HALF * rho * psqrt(X.I.sumsq(vi.e)) * X.ini("pointCdA"), vi)
    F = add(X.ini("pointF"), Mat(3, 1, (ZERO, ZERO, g * (rho * V - m))), line_ends(X, "attached", 0), drag)
    judge(R, X, "net force", X.fin("Fnet"), [F])
    judge(R, X, "mass matrix", X.fin("M"), [add(scal(m + rho * V * X.ini("pointCa"), X.I.eye(3, 3)), line_ends(X, "attached", 2))])


@guarded
def point_deriv(P, R):
    f = one(P, R, POINT, "getStateDeriv", 0)
    if not f:
        return
    X = LX(P, POINT, f, "FREE", after=AFTER)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    if not any(c.name == "doRHS" for c in all_calls(X.st.ev)):
        return R.unknown("%s: loads not computed by doRHS" % X.what)
    solved(R, X, "acceleration", X.fin("acc"), X.fin("M"), X.fin("Fnet"))
    d = pair(X.v)
    judge(R, X, "rate of the position", d[0], [X.ini("rd")])
    judge(R, X, "rate of the velocity", d[1], [X.fin("acc")])


def pair(v):
    if isinstance(v, Agg):
        d = {k[-1][1] if type(k) is tuple and k else k: x for k, x in v.v[1]}
        return d.get("first"), d.get("second")
    return None, None


@guarded
def point_net(P, R):
    f = one(P, R, POINT, "getNetForceAndMass", 4)
    if not f:
        return
    X = LX(P, POINT, f, after=AFTER)
    if not any(c.name == "doRHS" for c in all_calls(X.st.ev)):
        return R.unknown("%s: loads not computed by doRHS" % X.what)
    F, Ms = X.fin("Fnet"), X.fin("M")
    rel = add(X.ini("r"), neg(X.par(2)))
    w = sub(X.par(3), 3, 6)
    cen = neg(X.I.mm(Ms, cross(w, cross(w, rel))))
    judge(R, X, "force about the reference point", X.out(0), [cat(add(F, cen), cross(rel, F))])
    judge(R, X, "mass about the reference point", X.out(1), [shift3(X.I, rel, Ms)])


def wave(X, meth, ident, what, i):
    """elevation, velocity, acceleration or pressure given by the waves object at the i-th node"""
    k = ("zeta", "U", "Ud", "pdyn").index(what)
    return X.I.sym(("in", (("X", meth, X.ini("waves"), (X.ini(ident),)), (".", "#%d" % k), ("[", i))), VEC if k in (1, 2) else ("flt",))


# ---------------------------------------------------------------- bodies
@guarded
def body_rhs(P, R):
    f = one(P, R, BODY, "doRHS", 0)
    if not f:
        return
    X = LX(P, BODY, f)
    I, env = X.I, X.this.env
    g, rho = env.g.v, env.rho_w.v
    O, v6, M0 = X.ini("OrMat"), X.ini("v6"), X.ini("M0")
    rot = lambda m: I.mm(I.mm(O, m), tr(O))
    own = six(rot(blk(M0, 0, 0)), tr(rot(blk(M0, 1, 0))), rot(blk(M0, 1, 0)), rot(blk(M0, 1, 1)))
    cg = I.mm(O, X.ini("body_rCG"))
    W = Mat(3, 1, (ZERO, ZERO, g * (rho * X.ini("bodyV") - X.ini("bodyM"))))
    w = sub(v6, 3, 6)
    cen = neg(I.mm(blk(own, 0, 0), cross(w, cross(w, cg))))
    U = wave(X, "getWaveKinBody", "bodyId", "U", ZERO)
    vl, va = add(U, neg(sub(v6, 0, 3))), neg(w)
    cda = X.ini("bodyCdA")
    diag = lambda a: Mat(3, 3, tuple(cda.e[a + i] if i == j else ZERO for i in range(3) for j in range(3)))
    drag = [scal(HALF * rho * psqrt(I.sumsq(v.e)), I.mm(rot(diag(a)), v)) for v, a in ((vl, 0), (va, 3))]
    F, Ms = cat(add(W, cen, drag[0]), add(cross(cg, W), drag[1])), own
    pos = X.ini("r7", "pos")
    for lst in ("attachedP", "attachedR"):
        o = getattr(X.this, lst)[IT].v
        F = add(F, answers(X, lst, "getNetForceAndMass", o, (pos, v6), 0, VEC6))
        Ms = add(Ms, answers(X, lst, "getNetForceAndMass", o, (pos, v6), 1, MAT6))
    judge(R, X, "net force", X.fin("F6net"), [F])
    judge(R, X, "mass matrix", X.fin("M"), [Ms])


def qrate(I, w, q):
    """0.5 (0, w) q"""
    return Quat(tuple(HALF * x for x in I.qmul(Quat(w.e + (ZERO,)), q).e))


def xyzquat(v):
    if isinstance(v, Agg):
        d = {k[-1][1] if type(k) is tuple and k else k: x for k, x in v.v[1]}
        return d.get("pos"), d.get("quat")
    return None, None


def deriv6(R, X, t, F, Ms, rate, acc, head, zero_length=False, head_after=True):
    """state derivative of an object with 6 degrees of freedom; head: linear acceleration of the pinned end"""
    I = X.I
    v6, q = X.ini("v6"), X.ini("r7", "quat")
    pos, quat = rate
    if t == "FREE":
        judge(R, X, "rate of the position", pos, [sub(v6, 0, 3)])
        if zero_length:
            solved(R, X, "acceleration", sub(acc, 0, 3), blk(Ms, 0, 0), sub(F, 0, 3))
            judge(R, X, "angular acceleration", sub(acc, 3, 6), [Mat(3, 1, (ZERO,) * 3)])
            return
        judge(R, X, "acceleration", acc, [I.answer("solveMat6", None, (Ms, F), None, VEC6)])
    else:
        judge(R, X, "rate of the position", pos, [Mat(3, 1, (ZERO,) * 3)])
        solved(R, X, "angular acceleration", sub(acc, 3, 6), blk(Ms, 1, 1), add(sub(F, 3, 6), neg(I.mm(blk(Ms, 1, 0), head))))
        if head_after:
            judge(R, X, "prescribed acceleration", sub(acc, 0, 3), [head])
    judge(R, X, "rate of the orientation", quat, [qrate(I, sub(v6, 3, 6), q)])


@guarded
def body_deriv(P, R, t):
    f = one(P, R, BODY, "getStateDeriv", 0)
    if not f:
        return
    X = LX(P, BODY, f, t, after=AFTER)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    a, b = pair(X.v)
    if not any(c.name == "doRHS" for c in all_calls(X.st.ev)):
        return R.unknown("%s: loads not computed by doRHS" % X.what)
    F, Ms, acc = X.fin("F6net"), X.fin("M"), X.fin("a6")
    deriv6(R, X, t, F, Ms, (X.fin("dPos", "pos"), X.fin("dPos", "quat")), acc, sub(X.ini("a6"), 0, 3))
    judge(R, X, "returned acceleration", b, [acc])


# ---------------------------------------------------------------- changes of reference
@guarded
def masses(P, R):
    for n, k in (("translateMass", 3), ("translateMass6", 6), ("rotateMass", 3), ("rotateMass6", 6)):
        fs = [f for f in P.funcs.values() if f["qn"] == "moordyn::" + n and f.get("body") and len(f["params"]) == 2]
        if len(fs) != 1:
            R.unknown(n)
            continue
        f = fs[0]
        I = Cells(P, None, ())
        st, v = I.call_entry(f, None)

        class X:
            pass
        X.I, X.f, X.what = I, f, n
        r, m = [I.sym(("in", (("P", p["n"]),)), p["t"].rstrip("& ")) for p in f["params"]]
        if n.startswith("translate"):
            judge(R, X, "mass about the new reference point", v, [(shift3 if k == 3 else shift6)(I, r, m)])
        else:
            rot = lambda x: I.mm(I.mm(r, x), tr(r))
            e = rot(m) if k == 3 else six(rot(blk(m, 0, 0)), tr(rot(blk(m, 1, 0))), rot(blk(m, 1, 0)), rot(blk(m, 1, 1)))
            judge(R, X, "mass in the rotated frame", v, [e])


# ---------------------------------------------------------------- lines
@guarded
def end_stuff(P, R):
    f = one(P, R, LINE, "getEndStuff", 4)
    if not f:
        return
    for e, i, mom in ((0, ZERO, "endMomentA"), (1, ONE + M, "endMomentB")):
        X = LX(P, LINE, f, n=ONE + M, args={f["params"][3]["n"]: C(e)})
        X.what += " at end " + "AB"[e]
        if X.dead():
            R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
            continue
        judge(R, X, "force", X.out(0), [X.ini("Fnet", i)])
        judge(R, X, "moment", X.out(1), [X.ini(mom)])
        judge(R, X, "mass", X.out(2), [X.ini("M", i)])


LINE_CUT = ("lstr", "qs", "ldstr", "q", "Kurv", "pvec", "F", "M", "T", "Td", "W", "Dp", "Dq", "Ap", "Aq", "B", "Pb", "Bs", "E", "c", "EI", "Fnet")
NL = C(2) + KP + JP
_lines = {}


def const(P, name):
    I = Interp(P)
    for g in P.globals.values():
        if g.get("n") == name and g.get("i"):
            v = I.ev(g["i"], State(), Frame({"qn": "<global>", "fn": "", "n": "", "rt": ""}))
            if isinstance(v, Poly) and v.is_const():
                return v
    raise Missing("constant " + name)


def line_run(P, R, curves):
    """Line::getStateDeriv with (curves = 2) or without (0) look-up tables"""
    if curves not in _lines:
        f = one(P, R, LINE, "getStateDeriv", 0)
        if not f:
            return None
        X = LX(P, LINE, f, n=NL, cut=LINE_CUT, pre=[(k, C(curves), "int") for k in ("nEApoints", "nCpoints", "nEIpoints")])
        X.what += " with stiffness tables" if curves else ""
        _lines[curves] = X
    X = _lines[curves]
    if X.dead():
        R.violation("%s|rejects" % X.what, loc(X.f), "%s always throws" % X.what)
        return None
    return X


NODES = (("end A", ZERO), ("end B", NL), ("an interior node", ONE + KP))


def around(i):
    """segments next to a node"""
    return [KP] * (i != ZERO and i != NL) + ([ONE + KP] if i != ZERO and i != NL else [ZERO] if i == ZERO else [NL - ONE])


@guarded
def line_loads(P, R):
    for curves in (0, 2):
        line_loads1(P, R, curves)


@guarded
def line_loads1(P, R, curves):
    X = line_run(P, R, curves)
    if X is None:
        return
    I, env = X.I, X.this.env
    g, rho_w = env.g.v, env.rho_w.v
    pi = const(P, "pi")
    d, rho, A = X.ini("d"), X.ini("rho"), X.ini("A")
    eye = I.eye(3, 3)
    for s, nm in ((ONE + KP, "a segment"), (ZERO, "the first segment"), (NL - ONE, "the last segment")):
        l, ls, ld, qs = X.ini("l", s), X.fin("lstr", s), X.fin("ldstr", s), X.fin("qs", s)
        dr, dv = (add(X.ini(k, s + ONE), neg(X.ini(k, s))) for k in ("r", "rd"))
        judge(R, X, "stretched length of " + nm, ls, [psqrt(I.sumsq(dr.e))], own=("lstr",))
        direction(R, X, "direction of " + nm, qs, ls, dr, ("qs",))
        judge(R, X, "strain rate of " + nm, ld, [dot(qs, dv)], own=("ldstr",))
        E, c = last(X, "E"), last(X, "c")
        T = scal(E * A * pdiv(ls - l, l), qs)
        judge_cases(R, X, "tension of " + nm, X.fin("T", s), T, pdiv(ls, l) - ONE, ls - l)
        judge(R, X, "damping force of " + nm, X.fin("Td", s), [scal(c * A * pdiv(ld, l), qs)], own=("Td",))
    for nm, i in NODES:
        seg = around(i)
        m = ZERO
        vol = ZERO
        wt = ZERO
        for s in seg:
            l, F = X.ini("l", s), X.fin("F", s)
            m = m + pi * d * d * rho * l * C(Fraction(1, 8))
            vol = vol + HALF * F * X.ini("V", s)
            wt = wt - HALF * A * l * (rho - F * rho_w) * g
        q = X.fin("q", i)
        Q = I.mm(q, tr(q))
        cm = add(scal(X.ini("Can"), add(eye, neg(Q))), scal(X.ini("Cat"), Q))
        judge(R, X, "mass matrix of " + nm, X.fin("M", i), [add(scal(m, eye), scal(rho_w * vol, cm))], own=("M",))
        judge(R, X, "submerged weight of " + nm, X.fin("W", i), [Mat(3, 1, (ZERO, ZERO, wt))], own=("W",))
        terms = {k: X.fin(k, i) for k in ("W", "Dp", "Dq", "Ap", "Aq", "B", "Bs", "Pb")}
        if i != ZERO:
            terms["T of the segment before"], terms["Td of the segment before"] = neg(X.fin("T", i - ONE)), neg(X.fin("Td", i - ONE))
        if i != NL:
            terms["T of the segment after"], terms["Td of the segment after"] = X.fin("T", i), X.fin("Td", i)
        total(R, X, "net force of " + nm, X.fin("Fnet", i), terms)
    u, a = pair(X.v)
    i = ONE + KP
    judge(R, X, "rate of the position of an interior node", item(I, u, KP), [X.ini("rd", i)])
    judge_lin(R, X, "acceleration of an interior node", item(I, a, KP), X.fin("M", i), X.fin("Fnet", i))


def last(X, fld):
    """the value of a coefficient: its latest assignment, or what it was"""
    ns = [k for k in X.I.defs if k[0][1].partition("@")[0] == fld]
    if len(ns) > 1:
        raise Missing("several values of " + fld)
    return X.I.sym(("in", ns[0]), ("flt",)) if ns else X.ini(fld)


def dot(a, b):
    s = ZERO
    for x, y in zip(a.e, b.e):
        s = s + x * y
    return s


def item(I, v, i):
    if isinstance(v, Agg):
        v = settle(I.project(v, (("[", i),), VEC), NN)
        return v if isinstance(v, Mat) else None
    return None


def direction(R, X, what, got, ln, dr, own):
    """the unit vector along dr, whose length is ln; a segment of (nearly) no length may keep dr"""
    if not isinstance(got, Mat):
        return R.unknown("%s: %s" % (X.what, what))
    got = settle(X.I.expand(got), NN)
    nn = psqrt(X.I.sumsq(dr.e))
    rs = set()
    for k in range(3):
        for cs, leaf in cases(got.e[k]):
            r = cmpv(leaf, pdiv(dr.e[k], nn))
            rs.add(r if r == "eq" else "z" if cmpv(leaf, dr.e[k]) == "eq" else "?" if find_ite(leaf) is not None else r)
    if "eq" in rs and rs <= {"eq", "z"}:
        R.held("%s: %s" % (X.what, what))
    elif "?" not in rs:
        R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: %s is not the unit vector from one node to the next" % (X.what, what))
    else:
        R.unknown("%s: %s" % (X.what, what))


def judge_cases(R, X, what, got, exp, *conds):
    """exp where a condition holds (given in equivalent forms p > 0), zero elsewhere"""
    zero = Mat(3, 1, (ZERO,) * 3)
    alts = []
    for p in conds:
        for strict in (True, False):
            c = f_gt0(p) if strict else f_ge0(p)
            alts.append(Mat(3, 1, tuple(ite(c, x, ZERO) for x in exp.e)))
    judge(R, X, what, got, alts, own=("T",))


def judge_lin(R, X, what, acc, Ms, F):
    if not isinstance(acc, Mat):
        return R.unknown("%s: %s" % (X.what, what))
    judge(R, X, what, acc, [X.I.mm(X.I.inv3(Ms), F)], full=False)


HOW = {1: "is left out", -1: "is counted twice"}


def total(R, X, what, got, terms):
    """the sum of the terms; a missing or repeated term is named"""
    exp = add(*terms.values())
    r = verdict(X, got, [exp], ("Fnet",))
    if r == "eq":
        return R.held("%s: %s" % (X.what, what))
    d = add(settle(X.I.expand(got, ("Fnet",)), NN), neg(exp))
    for k, v in sorted(terms.items()):
        if all(is_zero(x) for x in v.e):
            continue
        for c in (1, -1, 2, -2):
            x = add(d, scal(C(c), v))
            if all(cmpv(y, ZERO) == "eq" for y in x.e):
                how = {1: "is left out", -1: "is counted twice", 2: "has the wrong sign", -2: "is counted three times"}[c]
                return R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: in the %s, %s %s" % (X.what, what, k, how))
    ks = [k for k, v in sorted(terms.items()) if not all(is_zero(x) for x in v.e)]
    for n, k in enumerate(ks):
        for m in ks[n + 1:]:
            for c in (1, -1):
                for e in (1, -1):
                    x = add(d, scal(C(c), terms[k]), scal(C(e), terms[m]))
                    if all(cmpv(y, ZERO) == "eq" for y in x.e):
                        return R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: in the %s, %s %s and %s %s" % (X.what, what, k, HOW[c], m, HOW[e]))
    if r == "ne":
        R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: %s is not the sum of its parts: the difference is %.300s" % (X.what, what, repr(d.e[0])))
    else:
        R.unknown("%s: %s" % (X.what, what))


ROD_CUT = ("roll", "pitch", "r", "rd", "V", "h0", "VOF", "W", "Bo", "Dp", "Dq", "Ap", "Aq", "Pd", "B")
PARTS = ("W", "Bo", "Dp", "Dq", "Ap", "Aq", "Pd", "B")
_rods = {}


def rod_run(P, R, n, cut=ROD_CUT):
    if (n, cut) not in _rods:
        f = one(P, R, ROD, "doRHS", 0)
        if not f:
            return None
        X = LX(P, ROD, f, n=n, cut=cut)
        X.what += " of a rod of %s segments" % ("several" if not n.is_const() else ("no", "one", "two")[int(n.cval())])
        _rods[(n, cut)] = X
    X = _rods[(n, cut)]
    if X.dead():
        R.violation("%s|rejects" % X.what, loc(X.f), "%s always throws" % X.what)
        return None
    return X


@guarded
def rod_rhs(P, R, n):
    X = rod_run(P, R, n)
    if X is None:
        return
    I = X.I
    ends = {"A": line_ends(X, "attachedA", 0), "B": line_ends(X, "attachedB", 0)}
    judge(R, X, "force of the lines at end A", X.fin("FextA"), [ends["A"]])
    judge(R, X, "force of the lines at end B", X.fin("FextB"), [ends["B"]])
    for nm, i in (("end A", ZERO), ("end B", n)) + ((("an interior node", ONE if n == C(2) else ONE + KP),) if n not in (ONE, ZERO) else ()):
        terms = {k: X.fin(k, i) for k in PARTS}
        if i == ZERO:
            terms["the force of the lines at end A"] = ends["A"]
        if i == n:
            terms["the force of the lines at end B"] = ends["B"]
        total(R, X, "net force of " + nm, X.fin("Fnet", i), terms)
    rest = add(X.fin("Mext"), neg(line_ends(X, "attachedA", 1)), neg(line_ends(X, "attachedB", 1)))
    if contains(rest, lambda t: type(t) is tuple and len(t) > 1 and t[0] == "X" and t[1] == "getEndStuff"):
        if vague(rest):
            R.unknown("%s: moments of the lines" % X.what)
        else:
            R.violation("%s|moments of the lines" % X.what, loc(X.f), "%s: the moments of the attached lines are not each added once" % X.what)
    else:
        R.held("%s: moments of the lines" % X.what)
    if not n.is_const():
        return
    # the lumped load is taken from the final loads of the nodes
    r = lambda i: X.fin("r", i)
    rel = add(r(IT), neg(r(ZERO)))
    if n == ZERO:
        rel = Mat(3, 1, (ZERO,) * 3)
    Fi, Mi = X.fin("Fnet", IT), X.fin("M", IT)

    def lump(v):
        at = lambda x, k: settle(subst(x, lambda a: C(k) if a == ("it", 0) else None), NN)
        return add(*[Mat(v.r, v.c, tuple(at(x, k) for x in v.e)) for k in range(int(n.cval()) + 1)])
    F6 = lump(cat(Fi, cross(rel, Fi)))
    judge(R, X, "net force about end A", X.fin("F6net"), [add(F6, cat(Mat(3, 1, (ZERO,) * 3), X.fin("Mext")))], full=False)
    M6, m6 = X.fin("M6net"), lump(shift3(I, rel, Mi))
    for a, b, nm in ((0, 0, "mass"), (0, 1, "mass coupling"), (1, 0, "mass coupling (lower)")):
        judge(R, X, nm + " about end A", blk(M6, a, b), [blk(m6, a, b)])
    own = add(blk(M6, 1, 1), neg(blk(m6, 1, 1)))
    if n == ZERO:
        judge(R, X, "inertia about end A", own, [Mat(3, 3, (ZERO,) * 9)])
        return
    fs = [f for f in P.funcs.values() if f["qn"] == "moordyn::orientationAngles" and f.get("body")]
    st, v = I.call_entry(fs[0], None, {fs[0]["params"][0]["n"]: X.ini("q")})
    phi, beta = pair(v)
    pi, d, L = const(P, "pi"), X.ini("d"), X.ini("UnstrLen")
    s, c = (lambda x: I.math("sin", [x])), (lambda x: I.math("cos", [x]))
    rz = Mat(3, 3, (c(beta), -s(beta), ZERO, s(beta), c(beta), ZERO, ZERO, ZERO, ONE))
    ry = Mat(3, 3, (c(phi), ZERO, s(phi), ZERO, ONE, ZERO, -s(phi), ZERO, c(phi)))
    O = I.mm(rz, ry)
    mass = pi * d * d * L * X.ini("rho") * C(Fraction(1, 4))
    ir = mass * (d * d * C(Fraction(1, 16)) - pdiv(L * L, C(6) * n * n))
    il = mass * d * d * C(Fraction(1, 8))
    J = Mat(3, 3, (ir, ZERO, ZERO, ZERO, ir, ZERO, ZERO, ZERO, il))
    judge(R, X, "inertia about end A", own, [I.mm(I.mm(O, J), tr(O))])


AFTER = {"doRHS": ("F6net", "M6net", "M", "Fnet", "Mext")}


@guarded
def rod_net(P, R, n):
    f = one(P, R, ROD, "getNetForceAndMass", 4)
    if not f:
        return
    X = LX(P, ROD, f, n=n, after=AFTER)
    X.what += " of a rod of length zero" if n == ZERO else ""
    I = X.I
    if not any(c.name == "doRHS" for c in all_calls(X.st.ev)):
        return R.unknown("%s: loads not computed by doRHS" % X.what)
    F, Ms = X.fin("F6net"), X.fin("M6net")
    rel = add(X.ini("r", ZERO), neg(X.par(2)))
    w = sub(X.par(3), 3, 6)
    cen = Mat(3, 1, (ZERO,) * 3)
    if n != ZERO:
        x = I.mm(X.fin("M", IT), cross(w, cross(w, add(X.ini("r", IT), neg(X.par(2))))))
        cen = neg(Mat(3, 1, tuple(I.sumform(y, ("it", 0), n + ONE) for y in x.e)))
    f3 = sub(F, 0, 3)
    judge(R, X, "force about the reference point", X.out(0), [cat(add(f3, cen), add(sub(F, 3, 6), cross(rel, f3)))])
    judge(R, X, "mass about the reference point", X.out(1), [shift6(I, rel, Ms)])


@guarded
def rod_deriv(P, R, t, n):
    f = one(P, R, ROD, "getStateDeriv", 0)
    if not f:
        return
    X = LX(P, ROD, f, t, n=n, after=AFTER)
    X.what += " of length zero" if n == ZERO else ""
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    if not any(c.name == "doRHS" for c in all_calls(X.st.ev)):
        return R.unknown("%s: loads not computed by doRHS" % X.what)
    a, b = pair(X.v)
    F, Ms, acc = X.fin("F6net"), X.fin("M6net"), X.fin("acc6")
    Ms = shift6(X.I, Mat(3, 1, (ZERO,) * 3), Ms)
    deriv6(R, X, t, F, Ms, (X.fin("vel7", "pos"), X.fin("vel7", "quat")), acc, sub(X.ini("acc6"), 0, 3), n == ZERO, False)
    judge(R, X, "returned acceleration", b, [acc])
