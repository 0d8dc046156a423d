"""C18: the sea that reaches each object: depth of the seabed, waves and currents at a place and time."""
import time
from itertools import product
from drive import *
from util import *
from poly import _atoms, aid, pdiv
from c09 import loc, guarded, diff
from c17 import method

THIS = (("T", "this"),)
POS = "positive"
VEC = ("mat", 3, 1)


class Field(Drive):
    """some quantities are known to be positive; the whole part of a number of the form k + (0..1) is k"""

    def __init__(self, P, cls=None, opaque_to=(), **kw):
        super().__init__(P, cls, **kw)
        self.shut = opaque_to

    def want(self, f):
        return not f.get("file", "").endswith(("Log.cpp", "Log.hpp")) and f.get("cls") not in self.shut

    def simp(self, st, c):
        c = strict(c)
        return super().simp(st, c)

    def math(self, n, args):
        if n in ("min", "max", "fmin", "fmax") and len(args) == 2 and all(isinstance(x, Poly) for x in args):
            s = psign(args[0] - args[1])
            if s is not None:
                return args[0] if (s >= 0) == (n in ("max", "fmax")) else args[1]
        r = super().math(n, args)
        if n in ("floor", "trunc") and len(args) == 1 and isinstance(args[0], Poly):
            d = args[0] - PART
            if d.is_const() and d.cval().denominator == 1:
                return d
        return r


def pos(name):
    return Poly.atom(("v", (POS, name)))



def ispos(a):
    at = _atoms[a]
    return type(at) is tuple and len(at) == 2 and at[0] == "v" and type(at[1]) is tuple and at[1][:1] == (POS,)


def strict(g):
    """decide comparisons of sums of positive quantities"""
    if g.k in ("and", "or"):
        return (f_and if g.k == "and" else f_or)(*[strict(x) for x in g.v])
    if g.k == "not":
        return f_not(strict(g.v))
    if g.k in ("gt", "ge", "eq") and isinstance(g.v, Poly) and g.v.t:
        s = psign(g.v)
        if s == 1:
            return FALSE if g.k == "eq" else TRUE
        if s == -1:
            return FALSE
    return g


def psign(p):
    """1 or -1 when a sum of positive quantities can only be positive or negative, 0 when it vanishes"""
    if not p.t:
        return 0
    if not all(ispos(a) for m in p.t for a, e in m):
        return None
    s = {c > 0 for c in p.t.values()}
    if len(s) == 1:
        return 1 if True in s else -1
    h = p.t.get(((next(iter(HUGE.atoms())), 1),))
    if h is not None:
        return 1 if h > 0 else -1
    k = next(iter(PART.atoms()))
    if any(a == k and e != 1 for m in p.t for a, e in m) or k not in p.atoms():
        return None
    lo, hi = (psign(subst(p, lambda at: v if aid(at) == k else None)) for v in (ZERO, ONE))
    if None in (lo, hi) or lo * hi < 0 or not lo and not hi:
        return None
    return lo or hi


def settled(v):
    """do the remaining conditions leave both outcomes possible?"""
    bad = []

    def chk(g):
        if g.k in ("and", "or"):
            for x in g.v:
                chk(x)
        elif g.k == "not":
            chk(g.v)
        elif contains(g, lambda t: type(t) is tuple and t[:1] == ("fn",)):
            bad.append(g)
        elif g.k not in ("gt", "ge", "eq") or not isinstance(g.v, Poly) or any(len(m) > 1 or any(e != 1 for _, e in m) for m in g.v.t):
            bad.append(g)

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            chk(at[1])
        return None
    for x in v.e if isinstance(v, Mat) else (v,):
        if isinstance(x, Poly):
            subst(x, f)
    return not bad


def axis(n, ax):
    """the ways a coordinate can lie on an axis of n ticks: (name, ticks, coordinate, weights)"""
    g = lambda i: pos(("gap", ax, i))
    o = Poly.atom(("v", ("origin", ax)))
    u, w = pos(("left", ax)), pos(("right", ax))

    def ticks(gaps):
        p = [o]
        for d in gaps:
            p.append(p[-1] + d)
        return p
    gs = [g(i) for i in range(n - 1)]
    p = ticks(gs)
    if n == 1:
        return [("anywhere", p, Poly.atom(("v", ("somewhere", ax))), {0: ONE})]
    out = [("before", p, o - u, {0: ONE}), ("beyond", p, p[-1] + u, {n - 1: ONE})]
    for k in range(n):
        out.append(("at %d" % k, p, p[k], {k: ONE}))
    for k in range(n - 1):
        q = ticks(gs[:k] + [u + w] + gs[k + 1:])
        out.append(("in %d" % k, q, q[k] + u, {k: pdiv(w, u + w), k + 1: pdiv(u, u + w)}))
    return out


HUGE = pos("the largest number")
PART = pos("part of a time interval")       # between 0 and 1


def setlist(I, st, path, dims, val):
    """a (nested) list with known sizes; val(*indices) are the values, or None to leave them open"""
    def go(p, ix):
        d = len(ix)
        if d == len(dims):
            v = val(*ix) if val else None
            if v is not None:
                I.write(st, p, v, "double" if isinstance(v, Poly) else VEC)
            return
        I.write(st, p + ((".", "#size"),), C(dims[d]), "unsigned int")
        for i in range(dims[d]):
            go(p + (("[", C(i)),), ix + (i,))
    go(path, ())


def field(*names):
    return THIS + tuple((".", n) for n in names)


def blend(ws, val):
    """the multilinear combination of the values at the corners"""
    out = None
    for ix in product(*[sorted(w) for w in ws]):
        c = ONE
        for w, i in zip(ws, ix):
            c = c * w[i]
        v = val(*ix)
        t = v.scale(1) * c if isinstance(v, Poly) else Mat(v.r, v.c, tuple(x * c for x in v.e))
        out = t if out is None else out + t if isinstance(v, Poly) else Mat(v.r, v.c, tuple(a + b for a, b in zip(out.e, t.e)))
    return out


def judge(R, what, f, got, exp):
    r = cmpv(got, exp) if got is not None else "?"
    if r == "eq":
        R.held(what)
    elif r == "ne" and settled(got):
        R.violation(what, loc(f), "%s: the value is %s, expected %s" % (what, say(got), say(exp)))
    else:
        R.unknown(what)


def say(v):
    return show(v)[:160] if isinstance(v, Poly) else str(v)[:160]


@guarded
def depth(P, R, nx, ny):
    f = method(P, "moordyn::Seafloor", "getDepthAt")
    for (a, px, x, wx), (b, py, y, wy) in product(axis(nx, "x"), axis(ny, "y")):
        I = Field(P, "moordyn::Seafloor")
        st = State()
        setlist(I, st, field("px"), (nx,), lambda i: px[i])
        setlist(I, st, field("py"), (ny,), lambda i: py[i])
        I.write(st, field("nx"), C(nx), "unsigned int")
        I.write(st, field("ny"), C(ny), "unsigned int")
        setlist(I, st, field("depthGrid"), (nx, ny), None)
        z = lambda i, j: I.sym(("in", field("depthGrid") + (("[", C(i)), ("[", C(j)))), "double")
        st2, v = I.call_entry(f, THIS, {f["params"][0]["n"]: x, f["params"][1]["n"]: y}, st)
        judge(R, "depth of a %dx%d seabed, x %s, y %s" % (nx, ny, a, b), f, v, blend((wx, wy), z))


SHALLOW, MEAN, HEIGHT = pos("local depth"), pos("mean depth"), pos("height of the water column")
DT = pos("sampling interval")


def moment(nt):
    """times of a series: (name, time, weights of the samples)"""
    if nt == 1:
        return [("any time", Poly.atom(("v", ("some time",))), {0: ONE})]
    out = []
    for k in range(2 * nt):
        if k % nt < nt - 1:
            out.append(("in %d" % k, (C(k) + PART) * DT, {k % nt: ONE - PART, k % nt + 1: PART}))
            out.append(("at %d" % k, C(k) * DT, {k % nt: ONE}))
    return out


class Sea(Field):
    """the depths at the place are numbers of their own"""

    def do_call(self, e, st, fr, want_place=False):
        if e.get("qn") in ("moordyn::Seafloor::getDepthAt", "moordyn::Seafloor::getAverageDepth"):
            if e["n"] == "getAverageDepth":
                return -MEAN
            a = [self.ev(x, st, fr) for x in e["a"]]
            ok = len(a) == 2 and all(is_zero(x - y) for x, y in zip(a, self.where))
            return -SHALLOW if ok else Poly.atom(("v", ("depth elsewhere", tuple(a))))
        return super().do_call(e, st, fr, want_place)


def vec(*e):
    return Mat(3, 1, tuple(e))


def grid_case(P, cls, f, n, ax, ay, az, t, floor=False, zetas=None, z=None):
    (_, px, x, _), (_, py, y, _), (_, pz, s, _) = ax, ay, az
    if time.time() > BY[0]:
        raise Limit("time")
    I = Sea(P, cls)
    st = State()
    for k, p, m in zip("xyz", (px, py, pz), n):
        setlist(I, st, field("p" + k), (m,), lambda i: p[i])
        I.write(st, field("n" + k), C(m), "unsigned int")
    I.write(st, field("nt"), C(n[3]), "unsigned int")
    I.write(st, field("dtWave"), DT, "double")
    for c, g in I.P.all_fields(cls):
        d = g["t"].count("vector<") or {"Vec3D": 3, "Vec4D": 4}.get(g["t"].partition("<")[0].rpartition("::")[2], 0)
        if d == 4:
            setlist(I, st, field(g["n"]), n, None)
        elif d == 3:
            setlist(I, st, field(g["n"]), (n[0], n[1], n[3]), (lambda *i: zetas) if zetas is not None else None)
    I.where = (x, y)
    sf = (("P", f["params"][2]["n"]),)
    I.write(st, sf + ((".", "waterDepth"),), -SHALLOW, "double")
    I.write(st, sf + ((".", "seafloor"),), Ptr((("P", "the seafloor"),)) if floor else Null(), "moordyn::Seafloor *")
    args = {f["params"][0]["n"]: vec(x, y, s if z is None else z), f["params"][1]["n"]: t[1]}
    outs = {}
    for q in f["params"][3:]:
        outs[q["n"]] = (("P", "out " + q["n"]),)
        args[q["n"]] = Ptr(outs[q["n"]])
    st2, _ = I.call_entry(f, THIS, args, st)
    got = lambda n, ty: I.read(st2, outs[n], ty)
    val = lambda name, ty: lambda *ix: I.sym(("in", field(name) + tuple(("[", C(i)) for i in ix)), ty)
    return got, val


def ofname(P, cls, words, dims):
    """the array of the class whose name has all the words"""
    c = [g["n"] for _, g in P.all_fields(cls) if all(w in g["n"].lower() for w in words)]
    return c[0] if len(c) == 1 else None


SIZES = ((1, 1, 1, 1), (2, 2, 2, 2), (3, 1, 2, 3), (1, 3, 1, 2), (1, 1, 3, 3), (2, 1, 3, 1))


@guarded
def waves(P, R, n):
    cls = "moordyn::WaveGrid"
    f = method(P, cls, "getWaveKin")
    names = dict(zip(("zeta", "vel", "acc", "pdyn"), [q["n"] for q in f["params"][3:]]))
    arr = {"vel": ofname(P, cls, ["vel"], 4), "acc": ofname(P, cls, ["acc"], 4), "pdyn": ofname(P, cls, ["pdyn"], 4), "zeta": ofname(P, cls, ["zeta"], 3)}
    axs = [axis(m, k) for m, k in zip(n, "xyz")]
    ts = moment(n[3])
    for a, b, t in product(axs[0], axs[1], ts):
        c = axs[2][0]
        got, val = grid_case(P, cls, f, n, a, b, c, t)
        judge(R, "elevation on a grid of %dx%d, %d samples, x %s, y %s, time %s" % (n[0], n[1], n[3], a[0], b[0], t[0]), f, got(names["zeta"], "double"),
              blend((a[3], b[3], t[2]), val(arr["zeta"], "double")))
    some = lambda l: [l[-1]] + l[:2]
    for a, b, c, t in product(some(axs[0]), some(axs[1]), axs[2], some(ts)):
        # the surface lies on the highest tick or above it
        top = pos("above the top")
        for q, (_, p, s, w) in (("below", c), ("above the water, ", c)):
            shift = -(s + top) if q == "below" else -p[-1]
            pz, sz = [x + shift for x in p], s + shift
            if q != "below":
                if c[0] not in ("beyond", "anywhere"):
                    continue
                sz, w = top, {len(p) - 1: ONE}
            got, val = grid_case(P, cls, f, n, a, b, (c[0], pz, sz, w), t, zetas=ZERO)
            what = "on a grid of %dx%dx%d, %d samples, x %s, y %s, z %s%s, time %s" % (n + (a[0], b[0], q, c[0], t[0]))
            for k in ("vel", "acc", "pdyn"):
                ty = "double" if k == "pdyn" else VEC
                judge(R, "%s %s" % (k, what), f, got(names[k], ty), blend((a[3], b[3], w, t[2]), val(arr[k], ty)))
@guarded
def stretching(P, R, n):
    """under a raised surface over an uneven seabed, the column of water is stretched between the seabed and the surface"""
    cls = "moordyn::WaveGrid"
    f = method(P, cls, "getWaveKin")
    names = dict(zip(("zeta", "vel", "acc", "pdyn"), [q["n"] for q in f["params"][3:]]))
    arr = {"vel": ofname(P, cls, ["vel"], 4), "acc": ofname(P, cls, ["acc"], 4), "pdyn": ofname(P, cls, ["pdyn"], 4)}
    a, b, t = axis(n[0], "x")[-1], axis(n[1], "y")[-1], moment(n[3])[0]
    top = pos("above the top")
    for floor in (False, True):
        mean = MEAN if floor else SHALLOW
        for q, p, s, w in axis(n[2], "z"):
            for out in (False, True):
                shift = -p[-1] if out else -(s + top)
                if out and q not in ("beyond", "anywhere"):
                    continue
                pz, sz = [x + shift for x in p], top if out else s + shift
                z = pdiv((sz + mean) * HEIGHT, mean) - SHALLOW
                got, val = grid_case(P, cls, f, n, a, b, (q, pz, sz, w), t, floor, HEIGHT - SHALLOW, z)
                what = "under a raised surface, %s, z %s%s, %d levels" % ("uneven seabed" if floor else "flat seabed", q, " out of the water" if out else "", n[2])
                for k in ("vel", "acc", "pdyn"):
                    ty = "double" if k == "pdyn" else VEC
                    judge(R, "%s %s" % (k, what), f, got(names[k], ty), blend((a[3], b[3], {n[2] - 1: ONE} if out else w, t[2]), val(arr[k], ty)))


@guarded
def currents(P, R, n):
    cls = "moordyn::CurrentGrid"
    f = method(P, cls, "getCurrentKin")
    names = dict(zip(("vel", "acc"), [q["n"] for q in f["params"][3:]]))
    arr = {k: ofname(P, cls, [k], 4) for k in ("vel", "acc")}
    axs = [axis(m, k) for m, k in zip(n, "xyz")]
    ts = moment(n[3])
    some = lambda l: [l[-1]] + l[:2]
    up = False
    for i in range(4):
        ls = [some(l) for l in axs + [ts]]
        ls[i] = (axs + [ts])[i]
        if i and len(ls[i]) <= 3:
            continue
        for a, b, c, t in product(*ls):
            up = not up
            shift = (pos("depth of the place") if not up else ZERO - pos("height of the place")) + c[2]
            c = (c[0] + (", above the water" if up else ""), [x - shift for x in c[1]], c[2] - shift, c[3])
            got, val = grid_case(P, cls, f, n, a, b, c, t)
            what = "of the current on a grid of %dx%dx%d, %d samples, x %s, y %s, z %s, time %s" % (n + (a[0], b[0], c[0], t[0]))
            for k in ("vel", "acc"):
                judge(R, "%s %s" % (k, what), f, got(names[k], VEC), blend((a[3], b[3], c[3], t[2]), val(arr[k], VEC)))


class Both(Field):
    """the wave and current models are opaque functions of place and time"""

    def do_call(self, e, st, fr, want_place=False):
        if e.get("n") in ("getWaveKin", "getCurrentKin") and (e.get("cls") or e.get("qn") or "").find("Kin") >= 0 and len(e["a"]) in (5, 7):
            a = [self.ev(x, st, fr) for x in e["a"]]
            wave = e["n"] == "getWaveKin"
            for k, p in zip(("zeta", "vel", "acc", "pdyn") if wave else ("vel", "acc"), a[3:]):
                if isinstance(p, Ptr):
                    ty = VEC if k in ("vel", "acc") else "double"
                    self.write(st, p.v[0], self.sym(("in", (("X", e["n"], k, (a[0], a[1])),)), ty), ty)
            return ZERO
        if e.get("n") == "GetTime" and not e["a"]:
            return NOW
        return super().do_call(e, st, fr, want_place)


NOW = Poly.atom(("v", ("now",)))


def answer(I, wave, k, where, when=NOW):
    ty = VEC if k in ("vel", "acc") else "double"
    return I.sym(("in", (("X", "getWaveKin" if wave else "getCurrentKin", k, (where, when)),)), ty)


def zero(k):
    return vec(ZERO, ZERO, ZERO) if k in ("vel", "acc") else ZERO


def plus(a, b):
    return a + b if isinstance(a, Poly) else Mat(a.r, a.c, tuple(x + y for x, y in zip(a.e, b.e)))


def models(I, st, wave, current):
    for k, on in (("waveKinematics", wave), ("currentKinematics", current)):
        I.write(st, field(k), Ptr((("P", k),)) if on else Null(), "void *")


@guarded
def anywhere(P, R, wave, current):
    cls = "moordyn::Waves"
    f = method(P, cls, "getWaveKin")
    I = Both(P, cls)
    st = State()
    models(I, st, wave, current)
    ps = [q["n"] for q in f["params"]]
    here = vec(*[Poly.atom(("v", ("place", i))) for i in range(3)])
    outs = {k: (("P", "out " + k),) for k in ("zeta", "vel", "acc", "pdyn")}
    args = {ps[0]: here}
    for k, q in zip(("zeta", "vel", "acc", "pdyn"), f["params"][1:]):
        args[q["n"]] = Place(outs[k], q["t"].rstrip("& "))
    st2, _ = I.call_entry(f, THIS, args, st)
    for k in outs:
        exp = zero(k)
        if wave:
            exp = plus(exp, answer(I, True, k, here))
        if current and k in ("vel", "acc"):
            exp = plus(exp, answer(I, False, k, here))
        judge(R, "%s at a place, %s waves, %s current" % (k, "with" if wave else "no", "with" if current else "no"), f,
              I.read(st2, outs[k], VEC if k in ("vel", "acc") else "double"), exp)


def enum_value(P, name):
    return next(c["v"] for e in P.enums.values() for c in e["e"] if c["n"] == name)


KINDS = (("lines", "moordyn::Line", "lineId", (1, 2)), ("rods", "moordyn::Rod", "rodId", (2, 0)), ("points", "moordyn::Point", "pointId", (0, 0)),
         ("bodies", "moordyn::Body", "bodyId", (0, 0)))
WHAT = (("zeta", "zetas"), ("vel", "U"), ("acc", "Ud"), ("pdyn", "Pdyn"))


def objects(I, st):
    """two objects of each kind; (kind, number, node, position)"""
    out = []
    for kind, cls, idn, ns in KINDS:
        for store in ("nodeKin", "waveKin"):
            base = field(store, kind)
            I.write(st, base + ((".", "structures"), (".", "#size")), C(2), "unsigned int")
            for _, a in WHAT:
                I.write(st, base + ((".", a), (".", "#size")), C(2), "unsigned int")
        for j, n in enumerate(ns):
            o = (("P", "%s %d" % (kind, j)),)
            I.dyn[o] = cls
            I.write(st, o + ((".", idn),), C(j), "unsigned long")
            if kind in ("lines", "rods"):
                I.write(st, o + ((".", "N"),), C(n), "unsigned int")
                I.write(st, o + ((".", "r"), (".", "#size")), C(n + 1), "unsigned int")
            for store in ("nodeKin", "waveKin"):
                base = field(store, kind)
                I.write(st, base + ((".", "structures"), ("[", C(j))), Ptr(o), cls + " *")
                for _, a in WHAT:
                    I.write(st, base + ((".", a), ("[", C(j)), (".", "#size")), C(n + 1), "unsigned int")
            for i in range(n + 1):
                p = o + ((".", "r7"), (".", "pos")) if kind == "bodies" else o + ((".", "r"),) if kind == "points" else o + ((".", "r"), ("[", C(i)))
                out.append((kind, j, i, I.sym(("in", p), VEC)))
    return out


def stored(I, st, store, kind, j, a, i):
    return I.read(st, field(store, kind, a) + (("[", C(j)), ("[", C(i))), VEC if a in ("U", "Ud") else "double")


@guarded
def nodes(P, R, wave, current):
    """wave: None (none), 'model' or 'external'"""
    cls = "moordyn::Waves"
    f = method(P, cls, "updateWaves")
    I = Both(P, cls, budget=2000000)
    st = State()
    models(I, st, wave == "model", current)
    env = (("P", "the environment"),)
    I.write(st, field("env"), Ptr(env), "moordyn::EnvCond *")
    m = enum_value(P, {"external": "WAVES_EXTERNAL", "model": "WAVES_GRID", None: "WAVES_NONE"}[wave])
    I.write(st, env + ((".", "waterKinOptions"), (".", "waveMode")), C(m), "int")
    objs = objects(I, st)
    st2, _ = I.call_entry(f, THIS, {}, st)
    for kind, j, i, where in objs:
        for k, a in WHAT:
            old = I.sym(("in", field("nodeKin", kind, a) + (("[", C(j)), ("[", C(i)))), VEC if a in ("U", "Ud") else "double")
            ext = I.sym(("in", field("waveKin", kind, a) + (("[", C(j)), ("[", C(i)))), VEC if a in ("U", "Ud") else "double")
            exp = None
            if wave == "model":
                exp = answer(I, True, k, where)
            elif wave == "external" and current and k in ("vel", "acc"):
                exp = ext
            if current and k in ("vel", "acc"):
                c = answer(I, False, k, where)
                exp = c if exp is None else plus(exp, c)
            judge(R, "%s at node %d of %s[%d], waves %s, current %s" % (k, i, kind, j, wave, current), f, stored(I, st2, "nodeKin", kind, j, a, i),
                  old if exp is None else exp)


@guarded
def handed(P, R, kind, name):
    """what an object is given is what is kept for it"""
    cls = "moordyn::Waves"
    f = method(P, cls, name)
    I = Both(P, cls)
    for j in (0, 1):
        st = State()
        objects(I, st)
        st2, v = I.call_entry(f, THIS, {f["params"][0]["n"]: C(j)}, st)
        n = dict((k[0], k[3]) for k in KINDS)[kind][j]
        parts = dict(v.v[1]) if isinstance(v, Agg) else {}
        for m, (k, a) in enumerate(WHAT):
            for i in range(n + 1):
                ty = VEC if a in ("U", "Ud") else "double"
                p = parts.get(((".", "#%d" % m),))
                got = I.project(p, (("[", C(i)),), tinfo(ty) if type(ty) is str else ty) if p is not None else None
                judge(R, "%s handed to node %d of %s[%d]" % (k, i, kind, j), f, got, stored(I, st, "nodeKin", kind, j, a, i))


@guarded
def external(P, R, current):
    """the i-th velocity given by the host goes to the node whose place was the i-th handed out"""
    cls = "moordyn::Waves"
    f, g = method(P, cls, "getWaveKinematicsPoints"), method(P, cls, "setWaveKinematics")
    I = Both(P, cls)
    st = State()
    models(I, st, False, current)
    objs = objects(I, st)
    st2, v = I.call_entry(f, THIS, {}, st)
    its = dict(v.v[1]) if isinstance(v, Agg) else {}
    n = len(objs)
    I2 = Both(P, cls)
    st = State()
    models(I2, st, False, current)
    objects(I2, st)
    us = []
    for q in g["params"]:
        I2.write(st, (("P", q["n"]), (".", "#size")), C(n), "unsigned int")
        us.append([I2.sym(("in", (("P", q["n"]), ("[", C(i)))), VEC) for i in range(n)])
    st3, _ = I2.call_entry(g, THIS, {}, st)
    store = "waveKin" if current else "nodeKin"
    for kind, j, i, where in objs:
        at = [m for m in range(n) if its.get((("[", C(m)),)) is not None and cmpv(its[(("[", C(m)),)], where) == "eq"]
        for k, a, u in (("velocity", "U", us[0]), ("acceleration", "Ud", us[1])):
            what = "external %s of node %d of %s[%d]%s" % (k, i, kind, j, ", with a current" if current else "")
            got = stored(I2, st3, store, kind, j, a, i)
            if len(at) != 1:
                R.unknown(what)
            else:
                judge(R, what, g, got, u[at[0]])


class Axis(Field):
    def do_call(self, e, st, fr, want_place=False):
        n = (e.get("qn") or "").rpartition("::")[2]
        if n in ("atof", "stod", "stof", "stoul", "stoi", "atoi", "stol") and e.get("a"):
            v = self.ev(e["a"][0], st, fr)
            for i in range(6):
                if contains(v, lambda t: t == ("in", (("P", "entries"), ("[", C(i))))):
                    return self.count if i == 2 and self.count is not None else Poly.atom(("v", ("entry", i)))
        return super().do_call(e, st, fr, want_place)


@guarded
def coords(P, R, mode, n):
    f = next(g for g in P.funcs.values() if g["qn"] == "moordyn::gridAxisCoords" and g.get("body"))
    I = Axis(P)
    I.count = C(n) if mode == "GRID_LATTICE" else None
    st = State()
    path = (("P", "entries"),)
    I.write(st, path + ((".", "#size"),), C(3 if mode == "GRID_LATTICE" else n), "unsigned int")
    st2, v = I.call_entry(f, None, {f["params"][0]["n"]: C(enum_value(P, mode)), f["params"][1]["n"]: Place(path, f["params"][1]["t"].rstrip("& "))}, st)
    its = dict(v.v[1]) if isinstance(v, Agg) else {}
    e = lambda i: Poly.atom(("v", ("entry", i)))
    judge(R, "%s axis of %d: number of coordinates" % (mode, n), f, its.get(((".", "#size"),)), C(1 if mode == "GRID_SINGLE" else n))
    for i in range(1 if mode == "GRID_SINGLE" else n):
        exp = ZERO if mode == "GRID_SINGLE" else e(i) if mode == "GRID_LIST" else e(0) + (e(1) - e(0)).scale(Fraction(i, n - 1))
        judge(R, "%s axis of %d: coordinate %d" % (mode, n, i), f, its.get((("[", C(i)),)), exp)


class SeaFile(Field):
    """a text file with known numbers of rows and columns; data[row][column] is the number there"""

    def mapped(self, e, st, fr):
        """the place of an element of a map from words to numbers"""
        if e.get("op") != "[]" or e.get("o") is None or "std::map<" not in (strip(e["o"]).get("t") or "") and "::map<" not in (strip(e["o"]).get("t") or ""):
            return None
        p, k = self.lv(e["o"], st, fr), self.ev(e["a"][0], st, fr)
        if p is None or not isinstance(k, Str) or k.v[0][:1] != "#":
            return None
        return Place(p.path + (("[", C(int(k.v[0][1:]))),), "unsigned int")

    def lv_call(self, e, st, fr):
        return self.mapped(e, st, fr) or super().lv_call(e, st, fr)

    def word(self, x):
        """the text of a number; equal numbers are written alike"""
        self.words = getattr(self, "words", [])
        if x not in self.words:
            self.words.append(x)
        return Str("#%d" % self.words.index(x))

    def do_call(self, e, st, fr, want_place=False):
        n = (e.get("qn") or "").rpartition("::")[2]
        if "numeric_limits" in (e.get("qn") or "") and n in ("max", "infinity") and not e["a"]:
            return HUGE
        size = lambda k: ((((".", "#size"),), C(k)),)
        p = self.mapped(e, st, fr)
        if p is not None:
            return p if want_place else self.rdplace(st, p)
        if n == "fileToLines" and e.get("in"):
            return Agg(("in", (("P", "the file"),)), size(len(self.data)))
        if n == "make_unique" and tinfo(e["t"])[0] == "ptr":
            c = tinfo(e["t"])[1]
            c = tinfo(c)[1] if tinfo(c)[0] == "cls" else c
            g = [x for x in self.P.funcs.values() if x.get("cls") == c and x["n"] == c.rpartition("::")[2] and len(x["params"]) == len(e["a"]) and x.get("body")]
            if len(g) == 1:
                self.n += 1
                path = (("H", e.get("l"), self.n),)
                self.dyn[path] = c
                self.write(st, path, Agg(("undef", c), ()))
                self.invoke(g[0], path, e["a"], st, fr, e)
                return Ptr(path)
        if n == "split" and e.get("in") and e["a"]:
            v = self.ev(e["a"][0], st, fr)
            for i, r in enumerate(self.data):
                if isinstance(v, Op) and v.v[0] == ("in", (("P", "the file"), ("[", C(i)))):
                    return Agg(("in", (("P", "row %d" % i),)), size(len(r)) + tuple(((("[", C(k)),), self.word(x)) for k, x in enumerate(r)))
        if n in ("atof", "stod", "stof", "stoul", "stoi", "atoi", "stol") and e.get("a"):
            v = self.ev(e["a"][0], st, fr)
            for w in [x for x in [v] + list(getattr(v, "parts", lambda: ())()) if isinstance(x, Str)]:
                if w.v[0][:1] == "#":
                    return self.words[int(w.v[0][1:])]
        return super().do_call(e, st, fr, want_place)


@guarded
def bottom(P, R, nx, ny, back):
    """the depths read from the file are those of their own grid points"""
    cls = "moordyn::Seafloor"
    f = method(P, cls, "setup")
    g = method(P, cls, "getAverageDepth")
    px, py = axis(nx, "x")[0][1], axis(ny, "y")[0][1]
    d = lambda i, j: Poly.atom(("v", ("depth", i, j)))
    rows = [(px[i], py[j], d(i, j)) for i in range(nx) for j in range(ny)]
    if back:
        rows = [rows[(k * 5 + 3) % len(rows)] for k in range(len(rows))] if len(rows) % 5 else rows[::-1]
    I = SeaFile(P, cls, budget=2000000)
    I.data = [(C(nx), C(ny)), px, py] + rows
    st = State()
    env = (("P", "the environment"),)
    I.write(st, env + ((".", "SeafloorMode"),), C(enum_value(P, "SEAFLOOR_3D")), "int")
    for k in ("px", "py"):
        I.write(st, field(k) + ((".", "#size"),), ZERO, "unsigned int")
    st2, _ = I.call_entry(f, THIS, {f["params"][0]["n"]: Ptr(env)}, st)
    what = "%dx%d seabed file%s: " % (nx, ny, ", shuffled" if back else "")
    for k, p in (("px", px), ("py", py)):
        for i, x in enumerate(p):
            judge(R, what + "%s[%d]" % (k, i), f, I.read(st2, field(k) + (("[", C(i)),), "double"), x)
    for i in range(nx):
        for j in range(ny):
            judge(R, what + "depth of grid point %d, %d" % (i, j), f, I.read(st2, field("depthGrid") + (("[", C(i)), ("[", C(j))), "double"), d(i, j))
    st3, v = I.call_entry(g, THIS, {}, st2)
    m = ZERO
    for i in range(nx):
        for j in range(ny):
            m = m + d(i, j)
    judge(R, what + "average depth", f, v, m.scale(Fraction(1, nx * ny)))


def profile_rows(kind, nz, nt, cols):
    """the numbers of a current profile file, and (axes, velocity) of the grid that they describe"""
    z = axis(nz, "z")[0][1]
    v = lambda c, i, t: Poly.atom(("v", ("current", c, i, t)))
    u = lambda i, t: vec(*[v(c, i, t) if c < cols else ZERO for c in range(3)])
    if kind == "steady":
        return [()] * 3 + [(z[i],) + tuple(v(c, i, 0) for c in range(cols)) for i in range(nz)], z, u
    return [()] * 4 + [tuple(z), ()] + [(C(t) * DT,) + tuple(v(c, i, t) for c in range(cols) for i in range(nz)) for t in range(nt)], z, u


@guarded
def profile(P, R, kind, name, nz, nt, cols):
    """the velocities read from a profile are those of their own depths and times"""
    f = next(g for g in P.funcs.values() if g["n"] == name and g.get("body"))
    I = SeaFile(P, None, budget=2000000)
    I.data, z, u = profile_rows(kind, nz, nt, cols)
    st2, v = I.call_entry(f, None, {}, State())
    what = "%s current profile, %d depths, %d times, %d components: " % (kind, nz, nt, cols)
    o = v.v[0] if isinstance(v, Ptr) else None
    if o is None:
        return R.unknown(what + "%s" % str(v)[:200])
    g = lambda n, *ix: o + ((".", n),) + tuple(("[", C(i)) for i in ix)
    arr = ofname(P, "moordyn::CurrentGrid", ["vel"], 4)
    judge(R, what + "number of times", f, I.read(st2, g("nt"), "unsigned int"), C(nt))
    if nt > 1:
        judge(R, what + "interval", f, I.read(st2, g("dtWave"), "double"), DT)
    for i in range(nz):
        judge(R, what + "depth %d" % i, f, I.read(st2, g("pz", i), "double"), z[i])
        for t in range(nt):
            judge(R, what + "velocity at depth %d, time %d" % (i, t), f, I.read(st2, g(arr, 0, 0, i, t), VEC), u(i, t))


@guarded
def profile4(P, R, n, back):
    f = next(g for g in P.funcs.values() if g["n"] == "construct4DCurrentGrid" and g.get("body"))
    I = SeaFile(P, None, budget=2000000)
    axs = [axis(m, k)[0][1] for m, k in zip(n, "xyz")] + [[C(t) * DT for t in range(n[3])]]
    u = lambda *ix: vec(*[Poly.atom(("v", ("current", c) + ix)) for c in range(3)])
    rows = [tuple(a[i] for a, i in zip(axs, ix)) + u(*ix).e for ix in product(*[range(m) for m in n])]
    I.data = [tuple(C(m) for m in n)] + axs + [()] + (rows[::-1] if back else rows)
    st2, v = I.call_entry(f, None, {}, State())
    what = "4D current, %dx%dx%dx%d%s: " % (n + (", last first" if back else "",))
    o = v.v[0] if isinstance(v, Ptr) else None
    if o is None:
        return R.unknown(what)
    g = lambda n, *ix: o + ((".", n),) + tuple(("[", C(i)) for i in ix)
    arr = ofname(P, "moordyn::CurrentGrid", ["vel"], 4)
    judge(R, what + "number of times", f, I.read(st2, g("nt"), "unsigned int"), C(n[3]))
    if n[3] > 1:
        judge(R, what + "interval", f, I.read(st2, g("dtWave"), "double"), DT)
    for k, a in zip(("px", "py", "pz"), axs):
        for i, x in enumerate(a):
            judge(R, what + "%s[%d]" % (k, i), f, I.read(st2, g(k, i), "double"), x)
    for ix in product(*[range(m) for m in n]):
        judge(R, what + "velocity at %d, %d, %d, %d" % ix, f, I.read(st2, g(arr, *ix), VEC), u(*ix))


BY = [0]


def run(P, R):
    BY[0] = time.time() + 400
    R.rule("Interpolation of depths, waves and currents is executed abstractly for every position of a place and time relative to the ticks of a symbolic grid, and the "
           "result compared in normal form with the multilinear formula; the updates of the nodes are executed with opaque wave and current models and what each node gets "
           "is compared with the models' answers at its own position and the present time.")
    for nx, ny in product((1, 2, 3), repeat=2):
        depth(P, R, nx, ny)
    for n in SIZES:
        waves(P, R, n)
    for n in ((1, 1, 1, 1), (1, 1, 2, 1), (2, 1, 3, 2)):
        stretching(P, R, n)
    for n in SIZES:
        currents(P, R, n)
    for w, c in product((False, True), repeat=2):
        anywhere(P, R, w, c)
    for w, c in product((None, "model", "external"), (False, True)):
        nodes(P, R, w, c)
    for k, n in (("lines", "Line"), ("rods", "Rod"), ("points", "Point"), ("bodies", "Body")):
        handed(P, R, k, "getWaveKin" + n)
    for c in (False, True):
        external(P, R, c)
    for m, n in (("GRID_SINGLE", 1), ("GRID_LIST", 1), ("GRID_LIST", 3), ("GRID_LATTICE", 2), ("GRID_LATTICE", 3), ("GRID_LATTICE", 5)):
        coords(P, R, m, n)
    for nx, ny in ((1, 1), (2, 2), (2, 3), (3, 1)):
        for b in (False, True):
            bottom(P, R, nx, ny, b)
    for c in (1, 2, 3):
        profile(P, R, "steady", "constructSteadyCurrentGrid", 3, 1, c)
        profile(P, R, "steady", "constructSteadyCurrentGrid", 1, 1, c)
        for nz, nt in ((2, 3), (3, 2), (1, 2), (2, 1)):
            profile(P, R, "dynamic", "constructDynamicCurrentGrid", nz, nt, c)
    for n in ((2, 1, 2, 2), (1, 2, 3, 2), (1, 1, 1, 3), (2, 2, 1, 1)):
        for b in (False, True):
            profile4(P, R, n, b)
