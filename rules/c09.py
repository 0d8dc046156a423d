"""C09: motion passes down the attachment chain."""
from model import *
from drive import *
from fractions import Fraction

THIS = (("T", "this"),)
BODY, ROD, POINT, LINE = ("moordyn::" + x for x in ("Body", "Rod", "Point", "Line"))
M = Poly.atom(("v", ("in", (("G", "#m"), (".", "#size")))))


class K(Drive):
    def __init__(self, P, cls):
        self.c = cls
        super().__init__(P, cls)

    def want(self, f):
        return f.get("cls") == self.c or super().want(f)


def loc(f):
    return "%s (%s:%s)" % (f["qn"], f.get("file"), f.get("l"))


class Ex:
    """one method executed for an object of a given type"""

    def __init__(self, P, cls, f, typ=None, n=None, args=None, pre=None):
        self.P, self.cls, self.f, self.typ = P, cls, f, typ
        self.I = K(P, cls)
        st = State()
        if typ is not None:
            self.I.write(st, THIS + ((".", "type"),), C(enum_vals(P, cls)[typ]), "int")
        if n is not None:
            st.assume(f_ge0(M, True))
            self.I.write(st, THIS + ((".", "N"),), n, "unsigned int")
            for k, fl in P.all_fields(cls):
                if fl["n"] in ("r", "rd", "q") and tinfo(fl["t"])[0] == "vec":
                    self.I.write(st, THIS + ((".", fl["n"]), (".", "#size")), n + ONE, "unsigned long")
        for k, v, t in pre or ():
            self.I.write(st, THIS + ((".", k),), v, t)
        self.st, self.v = self.I.call_entry(f, THIS, args, st)
        self.this = Ref(self.I, THIS, cls)
        self.calls = all_calls(self.st.ev) if self.st is not None else []
        self.what = "%s%s" % (f["qn"][len("moordyn::"):], " of a %s" % typ if typ else "")

    def dead(self):
        return self.st is None

    def fin(self, *path):
        """final value of a field"""
        r = self.this
        for p in path:
            r = getattr(r, p) if type(p) is str else r[p]
        return self.I.read(self.st, r.path, r.ty)

    def ini(self, *path):
        r = self.this
        for p in path:
            r = getattr(r, p) if type(p) is str else r[p]
        return r.v

    def par(self, i):
        p = self.f["params"][i]
        return self.I.sym(("in", (("P", p["n"]),)), p["t"])

    def parp(self, i, *fields):
        p = self.f["params"][i]
        return (("P", p["n"]),)


def sub(v, a, b):
    return Mat(b - a, 1, v.e[a:b])


def vadd(a, b):
    return Mat(3, 1, tuple(x + y for x, y in zip(a.e, b.e)))


def vmul(s, a):
    return Mat(len(a.e), 1, tuple(s * x for x in a.e))


def cross(a, b):
    a, b = a.e, b.e
    return Mat(3, 1, (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]))


def cat(a, b):
    return Mat(6, 1, a.e + b.e)


def rots(I, q):
    nn = psqrt(I.sumsq(q.e))
    return I.qrot(Quat(tuple(pdiv(x, nn) for x in q.e))), I.qrot(q)


def judge(R, X, what, got, exps, where=None):
    """got equals one of the accepted values"""
    if got is None:
        return R.unknown("%s: %s" % (X.what, what))
    if not isinstance(exps, (list, tuple)):
        exps = [exps]
    rs = [cmpv(got, e) for e in exps]
    if "eq" in rs:
        R.held("%s: %s" % (X.what, what))
    elif all(r == "ne" for r in rs):
        R.violation("%s|%s" % (X.what, what), where or loc(X.f), "%s: %s is wrong: %s" % (X.what, what, diff(got, exps[0])))
    else:
        R.unknown("%s: %s" % (X.what, what))


def diff(got, exp):
    if isinstance(got, (Mat, Quat)) and isinstance(exp, (Mat, Quat)) and len(got.e) == len(exp.e):
        for i, (a, b) in enumerate(zip(got.e, exp.e)):
            if cmpv(a, b) == "ne":
                return "component %d is %.120s, expected %.120s" % (i, brief(a), brief(b))
    return "%.120s, expected %.120s" % (brief(got), brief(exp))


def brief(v):
    return repr(v)


def on_list(X, lst, name, member=None):
    """calls of a method on the elements of a list: [(call, index)], and whether other calls of that method exist"""
    out, odd = [], False
    for c in X.calls:
        if c.name != name:
            continue
        t = None
        if isinstance(c.obj, PtrT):
            t = c.obj.v[0]
        elif isinstance(c.obj, Ptr) and len(c.obj.v[0]) == 1 and c.obj.v[0][0][0] == "D":
            t = c.obj.v[0][0][1]
        if type(t) is tuple and t and t[0] == "in":
            p = t[1]
            if member and p[-1] == (".", member):
                p = p[:-1]
            if len(p) == 3 and p[0] == ("T", "this") and p[2][0] == "[":
                if p[1] == (".", lst):
                    out.append((c, p[2][1]))
                continue
        odd = True
    return out, odd


def every(X, lst, c, i):
    """the call is made for every element: True / 'cond' / 'range' / None"""
    n = getattr(X.this, lst).size
    itp = Poly.atom(("it", 0))
    if len(c.loops) != 1 or not isinstance(i, Poly):
        return None
    cnt = c.loops[0][1]
    extra = []
    for g in c.pc:
        if g.k == "T" or g == f_ge0(M, True):
            continue
        if g.k in ("ge", "gt") and isinstance(g.v, Poly) and isinstance(cnt, Poly) and g.v in (cnt - ONE - itp, cnt - itp, itp):
            continue
        extra.append(g)
    if extra:
        return None if any(vague(g) for g in extra) else "cond"
    if not isinstance(cnt, Poly) or vague(cnt) or vague(i):
        return None
    if cnt == n and i in (itp, n - ONE - itp):
        return True
    return "range"


def passed(R, X, lst, name, member, expect, labels, final=True):
    """the (last) call of the method on every element of the list carries the expected arguments"""
    what = "%s on every %s" % (name, lst)
    hits, odd = on_list(X, lst, name, member)
    if not hits:
        if odd:
            R.unknown("%s: %s" % (X.what, what))
        else:
            R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: %s is never called on the elements of %s" % (X.what, name, lst))
        return
    c, i = hits[-1]
    e = every(X, lst, c, i)
    where = "%s line %s" % (loc(X.f), c.line)
    if e is True:
        R.held("%s: %s" % (X.what, what))
    elif e in ("cond", "range"):
        # several partial calls may complete each other
        if len(hits) == 1:
            R.violation("%s|%s" % (X.what, what), where, "%s: %s is not called on every element of %s" % (X.what, name, lst))
        else:
            R.unknown("%s: %s" % (X.what, what))
        return
    else:
        R.unknown("%s: %s" % (X.what, what))
        return
    for (k, exp) in enumerate(expect(i)):
        if exp is None:
            continue
        judge(R, X, "%s given to %s by %s" % (labels[k], lst, name), c.args[k] if k < len(c.args) else None, exp, where)


def methods(P, cls):
    out = {}
    for f in P.funcs.values():
        if f.get("cls") == cls and f.get("body"):
            out.setdefault(f["n"] if "n" in f else f["qn"].rpartition("::")[2], []).append(f)
    return out


def one(P, R, cls, name, npar):
    fs = [f for f in P.funcs.values() if f["qn"] == cls + "::" + name and f.get("body") and len(f["params"]) == npar]
    if len(fs) != 1:
        R.unknown("%s::%s not found" % (cls, name))
        return None
    R.count("methods")
    return fs[0]


def guarded(fn):
    def g(*a):
        try:
            fn(*a)
        except (Missing, Limit, Terminated, TooBig, KeyError, AttributeError, IndexError) as x:
            R = next(r for r in [y for y in a] + [getattr(y, "R", None) for y in a] if hasattr(r, "unknown"))
            R.unknown("%s%r: %s" % (fn.__name__, [y for y in a if type(y) in (str, int, bool)], x))
    return g


def run(P, R):
    R.rule("Each method that moves an object is executed abstractly once per type of the object; the final fields and the arguments of the "
           "calls it makes on the i-th attached object, for every i, are compared in normal form with the rigid body formulas.")
    R.rule("Objects prescribed from outside follow r + rd*time between coupling steps; the coupling values are stored unchanged.")
    R.rule("Attaching an object appends it and its relative position to parallel lists at the same index.")
    for t in ("FREE", "CPLDPIN"):
        body_state(P, R, t)
    for t in ("COUPLED", "FIXED", "CPLDPIN"):
        body_fair(P, R, t)
        body_init(P, R, t)
    for n in (ONE + M, ZERO):
        for t in ("FREE", "PINNED", "CPLDPIN"):
            rod_state(P, R, t, n)
        for t in ("FIXED", "PINNED", "CPLDPIN"):
            rod_kin(P, R, t, n)
        for t in ("COUPLED", "CPLDPIN"):
            rod_fair(P, R, t, n)
    for t in ("COUPLED", "CPLDPIN"):
        rod_init(P, R, t)
    for m, t in (("setKinematics", "FIXED"), ("setState", "FREE"), ("updateFairlead", "COUPLED")):
        point(P, R, m, t)
    point_init(P, R)
    euler(P, R)
    line_end(P, R)
    line_orient(P, R)
    line_state(P, R)
    attach_body(P, R)
    attach_lines(P, R)
    R.floor("methods", 12)


# ---------------------------------------------------------------- bodies
def body_chain(R, X):
    I = X.I
    q, pos, v6 = X.fin("r7", "quat"), X.fin("r7", "pos"), X.fin("v6")
    if not (isinstance(q, Quat) and isinstance(pos, Mat) and isinstance(v6, Mat)):
        return R.unknown(X.what + ": final kinematics")
    Rs = rots(I, q)
    v, w = sub(v6, 0, 3), sub(v6, 3, 6)

    def pt(i):
        rel = X.this.rPointRel[i].v
        a = [I.mm(Q, rel) for Q in Rs]
        return [vadd(x, pos) for x in a], [vadd(v, cross(w, x)) for x in a]

    def rod(i):
        rel = X.this.r6RodRel[i].v
        a = [I.mm(Q, sub(rel, 0, 3)) for Q in Rs]
        d = [I.mm(Q, sub(rel, 3, 6)) for Q in Rs]
        return [cat(vadd(x, pos), y) for x, y in zip(a, d)], [cat(vadd(v, cross(w, x)), w) for x in a]
    passed(R, X, "attachedP", "setKinematics", None, pt, ("position", "velocity"))
    passed(R, X, "attachedR", "setKinematics", None, rod, ("placement", "velocity"))


def new_xyzquat(X, i):
    """the XYZQuat parameter"""
    r = Ref(X.I, X.parp(i), X.f["params"][i]["t"])
    return r.pos.v, r.quat.v


@guarded
def body_state(P, R, t):
    f = one(P, R, BODY, "setState", 2)
    if not f:
        return
    X = Ex(P, BODY, f, t)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    pos, quat = new_xyzquat(X, 0)
    vel = X.par(1)
    v0 = X.ini("v6")
    judge(R, X, "orientation", X.fin("r7", "quat"), [quat])
    judge(R, X, "position", X.fin("r7", "pos"), [pos if t == "FREE" else X.ini("r7", "pos")])
    judge(R, X, "velocity", X.fin("v6"), [vel if t == "FREE" else cat(sub(v0, 0, 3), sub(vel, 3, 6))])
    body_chain(R, X)


def from6(P, X, v):
    """XYZQuat::fromVec6 of a value: (pos, quat)"""
    fs = [f for f in P.funcs.values() if f["qn"].endswith("XYZQuat::fromVec6") and f.get("body")]
    if len(fs) != 1:
        raise Missing("XYZQuat::fromVec6")
    f = fs[0]
    st, r = X.I.call_entry(f, None, {f["params"][0]["n"]: v})
    if isinstance(r, Agg):
        d = {k[-1][1] if type(k) is tuple and k else k: x for k, x in r.v[1]}
        if "pos" in d and "quat" in d:
            return d["pos"], d["quat"]
    raise Missing("value of XYZQuat::fromVec6")


@guarded
def euler(P, R):
    """roll, pitch, yaw about the moving axes: q = qx qy qz"""
    fs = [f for f in P.funcs.values() if f["qn"].endswith("XYZQuat::fromVec6") and f.get("body")]
    if len(fs) != 1:
        raise Missing("XYZQuat::fromVec6")
    f = fs[0]
    R.count("methods")

    class Y:
        pass
    X = Y()
    X.what, X.f, X.I = "XYZQuat::fromVec6", f, K(P, BODY)
    v = X.I.sym(("in", (("P", f["params"][0]["n"]),)), f["params"][0]["t"])
    pos, q = from6(P, X, v)
    h = [X.I.math("sin", [x.scale(Fraction(1, 2))]) for x in v.e[3:]]
    c = [X.I.math("cos", [x.scale(Fraction(1, 2))]) for x in v.e[3:]]
    e = X.I.qmul(X.I.qmul(Quat((h[0], ZERO, ZERO, c[0])), Quat((ZERO, h[1], ZERO, c[1]))), Quat((ZERO, ZERO, h[2], c[2])))
    judge(R, X, "position", pos, [sub(v, 0, 3)])
    judge(R, X, "orientation", q, [e, Quat(tuple(-x for x in e.e))])


def linear(X, v, vd, t):
    return Mat(len(v.e), 1, tuple(a + b * t for a, b in zip(v.e, vd.e)))


@guarded
def body_fair(P, R, t):
    f = one(P, R, BODY, "updateFairlead", 1)
    if not f:
        return
    X = Ex(P, BODY, f, t)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    fair(P, R, X, t, "a6")
    if t != "CPLDPIN":
        body_chain(R, X)


def fair(P, R, X, t, acc):
    tm = X.par(0)
    rv, rdv, rddv = X.ini("r_ves"), X.ini("rd_ves"), X.ini("rdd_ves")
    lin = linear(X, rv, rdv, tm)
    if t == "CPLDPIN":
        judge(R, X, "position", X.fin("r7", "pos"), [sub(lin, 0, 3)])
        judge(R, X, "orientation", X.fin("r7", "quat"), [X.ini("r7", "quat")])
        for fld, src, nm in (("v6", rdv, "velocity"), (acc, rddv, "acceleration")):
            judge(R, X, nm, X.fin(fld), [cat(sub(src, 0, 3), sub(X.ini(fld), 3, 6))])
        return
    judge(R, X, "position", X.fin("r7", "pos"), [sub(lin, 0, 3)])
    try:
        _, q = from6(P, X, lin)
        judge(R, X, "orientation", X.fin("r7", "quat"), [q])
    except Missing as x:
        R.unknown("%s: orientation: %s" % (X.what, x))
    judge(R, X, "velocity", X.fin("v6"), [rdv])
    judge(R, X, "acceleration", X.fin(acc), [rddv])


@guarded
def body_init(P, R, t):
    f = one(P, R, BODY, "initiateStep", 3)
    if not f:
        return
    X = Ex(P, BODY, f, t)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    stored(R, X, t)


def stored(R, X, t):
    for i, fld in enumerate(("r_ves", "rd_ves", "rdd_ves")):
        got, new, old = X.fin(fld), X.par(i), X.ini(fld)
        if t == "COUPLED":
            judge(R, X, "stored " + fld, got, [new])
        elif t == "CPLDPIN":
            judge(R, X, "stored " + fld, sub(got, 0, 3) if isinstance(got, Mat) else None, [sub(new, 0, 3)])
        elif i:
            judge(R, X, "stored " + fld, got, [Mat(6, 1, (ZERO,) * 6)])


# ---------------------------------------------------------------- rods
def tag(X, n):
    X.what += " of length zero" if n == ZERO else ""


def rod_chain(R, X, n):
    I = X.I
    q, pos, v6 = X.fin("r7", "quat"), X.fin("r7", "pos"), X.fin("v6")
    if not (isinstance(q, Quat) and isinstance(pos, Mat) and isinstance(v6, Mat)):
        return R.unknown(X.what + ": final kinematics")
    v, w = sub(v6, 0, 3), sub(v6, 3, 6)
    if n == ZERO:
        rB, vB = [pos], [v]
    else:
        rel = [vmul(X.ini("UnstrLen"), I.mm(Q, X.ini("q0"))) for Q in rots(I, q)]
        rB, vB = [vadd(pos, x) for x in rel], [vadd(v, cross(w, x)) for x in rel]
        judge(R, X, "direction", X.fin("q"), [I.mm(Q, X.ini("q0")) for Q in rots(I, q)])
        judge(R, X, "end A node", X.fin("r", ZERO), [pos])
        judge(R, X, "end A node velocity", X.fin("rd", ZERO), [v])
        judge(R, X, "end B node", X.fin("r", n), rB)
        judge(R, X, "end B node velocity", X.fin("rd", n), vB)
    for lst, r, rd in (("attachedA", [pos], [v]), ("attachedB", rB, vB)):
        passed(R, X, lst, "setEndKinematics", "line", lambda i: (r, rd, getattr(X.this, lst)[i].end_point.v), ("position", "velocity", "line end"))
    if n != ZERO:
        dirs = [I.mm(Q, X.ini("q0")) for Q in rots(I, q)]
        for lst, e in (("attachedA", 0), ("attachedB", 1)):
            passed(R, X, lst, "setEndOrientation", "line", lambda i: (dirs, getattr(X.this, lst)[i].end_point.v, C(e)), ("direction", "line end", "rod end"))


@guarded
def rod_state(P, R, t, n):
    f = one(P, R, ROD, "setState", 2)
    if not f:
        return
    X = Ex(P, ROD, f, t, n)
    tag(X, n)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    pos, quat = new_xyzquat(X, 0)
    vel, v0 = X.par(1), X.ini("v6")
    judge(R, X, "position", X.fin("r7", "pos"), [pos if t == "FREE" else X.ini("r7", "pos")])
    v6 = X.fin("v6")
    judge(R, X, "velocity", sub(v6, 0, 3) if isinstance(v6, Mat) else None, [sub(vel if t == "FREE" else v0, 0, 3)])
    if n != ZERO:
        judge(R, X, "orientation", X.fin("r7", "quat"), [quat])
        judge(R, X, "angular velocity", sub(v6, 3, 6) if isinstance(v6, Mat) else None, [sub(vel, 3, 6)])
    rod_chain(R, X, n)


@guarded
def rod_kin(P, R, t, n):
    f = one(P, R, ROD, "setKinematics", 2)
    if not f:
        return
    X = Ex(P, ROD, f, t, n)
    tag(X, n)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    r, rd = X.par(0), X.par(1)
    judge(R, X, "position", X.fin("r7", "pos"), [sub(r, 0, 3)])
    if t != "FIXED":
        judge(R, X, "orientation", X.fin("r7", "quat"), [X.ini("r7", "quat")])
        judge(R, X, "velocity", X.fin("v6"), [cat(sub(rd, 0, 3), sub(X.ini("v6"), 3, 6))])
        return
    judge(R, X, "velocity", X.fin("v6"), [rd])
    direction(R, X, X.fin("r7", "quat"), X.ini("q0"), sub(r, 3, 6))
    rod_chain(R, X, n)


def direction(R, X, q, q0, d):
    """the orientation turns q0 into the direction d"""
    what = "%s: orientation" % X.what
    if not isinstance(q, Quat):
        return R.unknown(what)
    args = set()

    def see(t):
        if type(t) is tuple and len(t) == 5 and t[0] == "call" and t[1].endswith("::FromTwoVectors"):
            args.add(t[4])
        return False
    contains(q, see)
    if len(args) != 1:
        return R.unknown(what)
    a = next(iter(args))
    if len(a) != 2:
        return R.unknown(what)

    def same(x, y):
        """a positive multiple of y"""
        if cmpv(x, y) == "eq":
            return True
        nn = psqrt(X.I.sumsq(y.e))
        return cmpv(x, Mat(3, 1, tuple(pdiv(c, nn) for c in y.e))) == "eq"
    if same(a[0], q0) and same(a[1], d):
        R.held(what)
    elif same(a[0], d) and same(a[1], q0):
        R.violation(what, loc(X.f), "%s: the rotation is the inverse of the one that turns q0 into the given direction" % X.what)
    elif not any(contains(a[1], lambda t, c=c: t == at) for c in d.e for at in [_atoms[next(iter(c.atoms()))]]) and not vague(a[1]):
        R.violation(what, loc(X.f), "%s: the orientation does not follow the given direction" % X.what)
    else:
        R.unknown(what)


@guarded
def rod_fair(P, R, t, n):
    f = one(P, R, ROD, "updateFairlead", 1)
    if not f:
        return
    X = Ex(P, ROD, f, t, n)
    tag(X, n)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    fair(P, R, X, t, "acc6")
    if t == "COUPLED":
        rod_chain(R, X, n)


@guarded
def rod_init(P, R, t):
    f = one(P, R, ROD, "initiateStep", 3)
    if not f:
        return
    X = Ex(P, ROD, f, t)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    stored(R, X, t)


# ---------------------------------------------------------------- points
@guarded
def point(P, R, m, t):
    f = one(P, R, POINT, m, 1 if m == "updateFairlead" else 2)
    if not f:
        return
    X = Ex(P, POINT, f, t)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    if m == "updateFairlead":
        r, rd = linear(X, X.ini("r_ves"), X.ini("rd_ves"), X.par(0)), X.ini("rd_ves")
    else:
        r, rd = X.par(0), X.par(1)
    judge(R, X, "position", X.fin("r"), [r])
    judge(R, X, "velocity", X.fin("rd"), [rd])
    passed(R, X, "attached", "setEndKinematics", "line", lambda i: ([r], [rd], X.this.attached[i].end_point.v), ("position", "velocity", "line end"))


@guarded
def point_init(P, R):
    f = one(P, R, POINT, "initiateStep", 2)
    if not f:
        return
    X = Ex(P, POINT, f, "COUPLED")
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    judge(R, X, "stored r_ves", X.fin("r_ves"), [X.par(0)])
    judge(R, X, "stored rd_ves", X.fin("rd_ves"), [X.par(1)])


# ---------------------------------------------------------------- lines
@guarded
def line_end(P, R):
    f = one(P, R, LINE, "setEndKinematics", 3)
    if not f:
        return
    n = ONE + M
    for e, nm, idx, oth in ((0, "A", ZERO, n), (1, "B", n, ZERO)):
        X = Ex(P, LINE, f, None, n, {f["params"][2]["n"]: C(e)})
        X.what += " at end " + nm
        if X.dead():
            R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
            continue
        for fld, p in (("r", 0), ("rd", 1)):
            judge(R, X, "%s of the end node" % fld, X.fin(fld, idx), [X.par(p)])
            judge(R, X, "%s of the other end node" % fld, X.fin(fld, oth), [X.ini(fld, oth)])


@guarded
def line_orient(P, R):
    f = one(P, R, LINE, "setEndOrientation", 3)
    if not f:
        return
    n = ONE + M
    for e, nm, idx, oth in ((0, "A", ZERO, n), (1, "B", n, ZERO)):
        for re_, rn in ((0, "A"), (1, "B")):
            X = Ex(P, LINE, f, None, n, {f["params"][1]["n"]: C(e), f["params"][2]["n"]: C(re_)})
            X.what += " at end %s on rod end %s" % (nm, rn)
            if X.dead():
                R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
                continue
            # the line's direction runs A to B, the rod's too: end to end they agree, otherwise they oppose
            s = ONE if e != re_ else -ONE
            judge(R, X, "direction at the end node", X.fin("q", idx), [vmul(s, X.par(0))])
            judge(R, X, "direction at the other end node", X.fin("q", oth), [X.ini("q", oth)])


@guarded
def line_state(P, R):
    f = one(P, R, LINE, "setState", 2)
    if not f:
        return
    n = ONE + M
    X = Ex(P, LINE, f, None, n)
    if X.dead():
        return R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
    for fld, p in (("r", 0), ("rd", 1)):
        got = [(e[1][-1][1], e[2], [x for x in pre if x[0] == "loop"]) for e, pre in flat_events(X.st.ev)
               if e[0] == "set" and e[1][:2] == THIS + ((".", fld),) and len(e[1]) == 3]
        what = "%s: interior %s" % (X.what, fld)
        if len(got) != 1 or len(got[0][2]) != 1:
            R.unknown(what)
            continue
        i, v, lp = got[0]
        itp, cnt = Poly.atom(("it", 0)), lp[0][1]
        if not isinstance(i, Poly) or not isinstance(cnt, Poly) or vague(cnt) or vague(i):
            R.unknown(what)
            continue
        pos = Ref(X.I, X.parp(p), f["params"][p]["t"])
        if i == itp + ONE and cnt == n - ONE or i == n - ONE - itp and cnt == n - ONE:
            judge(R, X, "interior " + fld, v, [pos[i - ONE].v])
        else:
            R.violation(what, loc(f), "%s: the nodes set are not 1 to N-1" % X.what)


# ---------------------------------------------------------------- attaching
def appended(R, X, lst, exp, what):
    n = getattr(X.this, lst).size
    sz = X.I.read(X.st, THIS + ((".", lst), (".", "#size")), "int")
    judge(R, X, "length of %s" % lst, sz, [n + ONE])
    for path, e in exp:
        r = getattr(X.this, lst)[n]
        for p in path:
            r = getattr(r, p)
        judge(R, X, what, X.I.read(X.st, r.path, r.ty), e)


@guarded
def attach_body(P, R):
    f = one(P, R, BODY, "addPoint", 2)
    if f:
        X = Ex(P, BODY, f)
        if not X.dead():
            appended(R, X, "attachedP", [((), [X.par(0)])], "attached point")
            appended(R, X, "rPointRel", [((), [X.par(1)])], "relative position of the attached point")
    f = one(P, R, BODY, "addRod", 2)
    if f:
        X = Ex(P, BODY, f)
        if not X.dead():
            c = X.par(1)
            a, b = sub(c, 0, 3), sub(c, 3, 6)
            d = vadd(b, vmul(-ONE, a))
            nn = psqrt(X.I.sumsq(d.e))
            appended(R, X, "attachedR", [((), [X.par(0)])], "attached rod")
            appended(R, X, "r6RodRel", [], "")
            r = X.this.r6RodRel[X.this.r6RodRel.size]
            got = X.I.read(X.st, r.path, r.ty)
            if isinstance(got, Mat):
                judge(R, X, "relative position of the attached rod", sub(got, 0, 3), [a])
                # a rod of no length keeps the (null) difference
                for k in range(3):
                    rs = {cmpv(leaf, pdiv(d.e[k], nn)) if cmpv(leaf, d.e[k]) != "eq" else "z" for cs, leaf in cases(got.e[3 + k])}
                    what = "relative direction of the attached rod, component %d" % k
                    if "eq" in rs and rs <= {"eq", "z"}:
                        R.held("%s: %s" % (X.what, what))
                    elif "?" not in rs:
                        R.violation("%s|%s" % (X.what, what), loc(f), "%s: %s is not that of the unit vector from end A to end B" % (X.what, what))
                    else:
                        R.unknown("%s: %s" % (X.what, what))


@guarded
def attach_lines(P, R):
    f = one(P, R, POINT, "addLine", 2)
    if f:
        X = Ex(P, POINT, f)
        if not X.dead():
            appended(R, X, "attached", [(("line",), [X.par(0)]), (("end_point",), [X.par(1)])], "attachment")
    f = one(P, R, ROD, "addLine", 3)
    if f:
        for e, lst, oth in ((0, "attachedA", "attachedB"), (1, "attachedB", "attachedA")):
            X = Ex(P, ROD, f, None, None, {f["params"][2]["n"]: C(e)})
            X.what += " at rod end " + "AB"[e]
            if X.dead():
                R.violation("%s|rejects" % X.what, loc(f), "%s always throws" % X.what)
                continue
            appended(R, X, lst, [(("line",), [X.par(0)]), (("end_point",), [X.par(1)])], "attachment")
            sz = X.I.read(X.st, THIS + ((".", oth), (".", "#size")), "int")
            judge(R, X, "length of the other list", sz, [getattr(X.this, oth).size])
