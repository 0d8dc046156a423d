"""C13: the accessors of the C interface return the quantity they are named after."""
from model import *
from api import *
from expect import *
from c12 import setf, leaves, isnull

CLS = {"__MoorDyn *": "moordyn::MoorDyn", "__MoorDynLine *": "moordyn::Line", "__MoorDynRod *": "moordyn::Rod",
       "__MoorDynBody *": "moordyn::Body", "__MoorDynPoint *": "moordyn::Point", "__MoorDynWaves *": "moordyn::Waves",
       "__MoorDynSeafloor *": "moordyn::Seafloor"}


def vadd(a, b):
    return Mat(a.r, a.c, tuple(x + y for x, y in zip(a.e, b.e)))


def vscale(a, s):
    return Mat(a.r, a.c, tuple(x * s for x in a.e))


def ifv(c, a, b):
    if isinstance(a, Mat):
        return Mat(a.r, a.c, tuple(ite(c, x, y) for x, y in zip(a.e, b.e)))
    return ite(c, a, b)


def norm2(x):
    return psqrt(sum((y * y for y in x), ZERO))


def tension(h, i):
    """the tension at a node: of the adjacent segment at the ends, the mean of both inside"""
    N = h.N.v
    half = C(Fraction(1, 2))

    def seg(j):
        return vadd(h.T[j].v, h.Td[j].v)
    return ifv(f_eq0(i), seg(ZERO), ifv(f_eq0(i - N), seg(N - ONE), vscale(vadd(seg(i), seg(i - ONE)), half)))


def loaded(h, F6, M6, a6, t_cpld, t_pin):
    """the net load of a body or rod, including its inertia when its motion is prescribed"""
    F, M, a, t = F6.v, M6.v, a6.v, h.type.v
    out = []
    for i in range(6):
        full = F.e[i] - sum((M.e[6 * i + j] * a.e[j] for j in range(6)), ZERO)
        pin = full if i < 3 else ZERO
        out.append(ite(f_eq0(t - C(t_cpld)), full, ite(f_eq0(t - C(t_pin)), pin, F.e[i])))
    return out


def table(P):
    """entry -> function of (handle, parameters) giving {out parameter position: expected value(s)};
    positions count the parameters after the handle and the index"""
    one = lambda f: (lambda h, p: [[f(h)]])
    vec = lambda f: (lambda h, p: [list(f(h).v.e)])
    node = lambda f: (lambda h, p: [list(f(h, p[0]).e)])
    bt = enum_vals(P, "moordyn::Body")
    rt = enum_vals(P, "moordyn::Rod")

    def mat(f, n):
        return lambda h, p: [[[f(h, p).v.e[n * i + j] for j in range(n)] for i in range(n)]]
    T = {
        "MoorDyn_GetLineID": one(lambda h: h.number.v),
        "MoorDyn_GetLineN": one(lambda h: h.N.v),
        "MoorDyn_GetLineNumberNodes": one(lambda h: h.N.v + ONE),
        "MoorDyn_GetLineUnstretchedLength": one(lambda h: h.UnstrLen.v),
        "MoorDyn_IsLineConstantEA": one(lambda h: ite(f_eq0(h.nEApoints.v), ONE, ZERO)),
        "MoorDyn_GetLineConstantEA": one(lambda h: h.E.v * h.A.v),
        "MoorDyn_IsLinePressBend": one(lambda h: ite(h.isPb.f, ONE, ZERO)),
        "MoorDyn_GetLineFairTen": one(lambda h: norm2([h.T[h.N.v - ONE].v.e[k] + h.Td[h.N.v - ONE].v.e[k] for k in range(3)])),
        "MoorDyn_GetLineNodePos": node(lambda h, i: h.r[i].v),
        "MoorDyn_GetLineNodeVel": node(lambda h, i: h.rd[i].v),
        "MoorDyn_GetLineNodeForce": node(lambda h, i: h.Fnet[i].v),
        "MoorDyn_GetLineNodeTen": node(tension),
        "MoorDyn_GetLineNodeBendStiff": node(lambda h, i: h.Bs[i].v),
        "MoorDyn_GetLineNodeWeight": node(lambda h, i: h.W[i].v),
        "MoorDyn_GetLineNodeDrag": node(lambda h, i: vadd(h.Dp[i].v, h.Dq[i].v)),
        "MoorDyn_GetLineNodeFroudeKrilov": node(lambda h, i: vadd(h.Ap[i].v, h.Aq[i].v)),
        "MoorDyn_GetLineNodeSeabedForce": node(lambda h, i: h.B[i].v),
        "MoorDyn_GetLineNodeCurv": lambda h, p: [[h.Kurv[p[0]].v]],
        "MoorDyn_GetLineNodeM": mat(lambda h, p: h.M[p[0]], 3),
        "MoorDyn_GetPointID": one(lambda h: h.number.v),
        "MoorDyn_GetPointType": one(lambda h: h.type.v),
        "MoorDyn_GetPointPos": vec(lambda h: h.r),
        "MoorDyn_GetPointVel": vec(lambda h: h.rd),
        "MoorDyn_GetPointForce": vec(lambda h: h.Fnet),
        "MoorDyn_GetPointM": mat(lambda h, p: h.M, 3),
        "MoorDyn_GetPointNAttached": one(lambda h: h.attached.size),
        "MoorDyn_GetPointAttached": lambda h, p: [h.attached[p[0]].line.v, [h.attached[p[0]].end_point.v]],
        "MoorDyn_GetRodID": one(lambda h: h.number.v),
        "MoorDyn_GetRodType": one(lambda h: h.type.v),
        "MoorDyn_GetRodN": one(lambda h: h.N.v),
        "MoorDyn_GetRodNumberNodes": one(lambda h: h.N.v + ONE),
        "MoorDyn_GetRodNodePos": node(lambda h, i: h.r[i].v),
        "MoorDyn_GetRodNodeVel": node(lambda h, i: h.rd[i].v),
        "MoorDyn_GetRodM": mat(lambda h, p: h.M6net, 6),
        "MoorDyn_GetRodForce": lambda h, p: [loaded(h, h.F6net, h.M6net, h.acc6, rt["COUPLED"], rt["CPLDPIN"])],
        "MoorDyn_GetBodyID": one(lambda h: h.number.v),
        "MoorDyn_GetBodyType": one(lambda h: h.type.v),
        "MoorDyn_GetBodyPos": vec(lambda h: h.r7.pos),
        "MoorDyn_GetBodyVel": lambda h, p: [list(h.v6.v.e[:3])],
        "MoorDyn_GetBodyAngVel": lambda h, p: [list(h.v6.v.e[3:])],
        "MoorDyn_GetBodyState": lambda h, p: [list(h.r7.pos.v.e) + [None] * 3, list(h.v6.v.e)],
        "MoorDyn_GetBodyM": mat(lambda h, p: h.M, 6),
        "MoorDyn_GetBodyForce": lambda h, p: [loaded(h, h.F6net, h.M, h.a6, bt["COUPLED"], bt["CPLDPIN"])],
        "MoorDyn_GetNumberBodies": one(lambda h: h.BodyList.size),
        "MoorDyn_GetNumberRods": one(lambda h: h.RodList.size),
        "MoorDyn_GetNumberPoints": one(lambda h: h.PointList.size),
        "MoorDyn_GetNumberLines": one(lambda h: h.LineList.size),
        "MoorDyn_GetDt": one(lambda h: h.dtM0.v),
        "MoorDyn_GetCFL": one(lambda h: h.cfl.v),
        "MoorDyn_GetAverageDepth": one(lambda h: h.averageDepth.v),
        "MoorDyn_GetMinDepth": one(lambda h: h.minDepth.v),
        "MoorDyn_ExternalWaveKinGetN": one(lambda h: h.npW.v),
    }
    return T


# entries that return a handle: (list, index parameter)
HANDLES = {"MoorDyn_GetBody": "BodyList", "MoorDyn_GetRod": "RodList", "MoorDyn_GetPoint": "PointList", "MoorDyn_GetLine": "LineList"}
PLAIN = {"MoorDyn_GetWaves": "waves", "MoorDyn_GetSeafloor": "seafloor"}
# entries addressed by node: the last valid node is N
NODES = ("MoorDyn_GetLineNode", "MoorDyn_GetRodNode")

# setters: field -> value from the parameter
SETTERS = {
    "MoorDyn_SetLineUnstretchedLength": lambda I, h, p: [(h.UnstrLen, p)],
    "MoorDyn_SetLineUnstretchedLengthVel": lambda I, h, p: [(h.UnstrLend, p)],
    "MoorDyn_SetLineConstantEA": lambda I, h, p: [((h.E, h.A), p)],
    "MoorDyn_SetDt": lambda I, h, p: [(h.dtM0, p)],
    "MoorDyn_SetCFL": lambda I, h, p: [(h.cfl, p)],
}


def run(P, R):
    R.rule("Abstract execution of every accessor of the C interface with all methods inlined: the final content of each output "
           "argument, in normal form, equals the named field(s) of the object behind the handle (component by component, at the "
           "given node), whenever the accessor reports success.")
    R.rule("A node index is accepted exactly from 0 to the number of segments, an object number exactly from 1 to the number of "
           "objects, an attachment index exactly below the number of attachments; otherwise an error code or null handle is returned.")
    R.rule("A setter followed by its getter yields the value that was set.")
    ents = entries(P)
    T = table(P)
    for n in sorted(T):
        if n in ents:
            try:
                accessor(P, R, n, ents[n], T[n])
            except (Missing, KeyError) as x:
                R.unknown("%s: %s" % (n, x))
            except Limit as x:
                R.unknown("%s: %s" % (n, x))
    for n in sorted(HANDLES):
        if n in ents:
            try:
                handles(P, R, n, ents[n], HANDLES[n])
            except (Missing, Limit) as x:
                R.unknown("%s: %s" % (n, x))
    for n in sorted(PLAIN):
        if n in ents:
            try:
                plain(P, R, n, ents[n], PLAIN[n])
            except (Missing, Limit) as x:
                R.unknown("%s: %s" % (n, x))
    if "MoorDyn_GetLineMaxTen" in ents:
        try:
            maxten(P, R, "MoorDyn_GetLineMaxTen", ents["MoorDyn_GetLineMaxTen"])
        except (Missing, Limit) as x:
            R.unknown("MoorDyn_GetLineMaxTen: %s" % x)
    for n in sorted(SETTERS):
        if n in ents:
            try:
                setter(P, R, n, ents[n])
            except (Missing, Limit) as x:
                R.unknown("%s: %s" % (n, x))
    for n in sorted(ents):
        if n.startswith(NODES) or n == "MoorDyn_GetPointAttached":
            try:
                ranges(P, R, n, ents[n])
            except (Missing, Limit) as x:
                R.unknown("%s: %s" % (n, x))
    R.floor("accessors", 40)


def interp(P):
    return Api(P, inline_methods=lambda f: True)


def hof(I, f):
    p = f["params"][0]
    c = CLS.get(p["t"])
    if c is None:
        raise Missing("handle type %s" % p["t"])
    return handle(I, p["n"], c), f_atom(("isnull", ("in", (("P", p["n"]),))))


def success(v, facts):
    """conditions of the cases in which the result is 0"""
    return [cs for cs, l in cases(v) if l.is_const() and l.cval() == 0]


def accessor(P, R, n, f, exp):
    R.count("accessors")
    I = interp(P)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    ps = [param(I, p["n"], p["t"]) for p in f["params"][1:] if not p["t"].endswith(("*", "]")) and tinfo(p["t"])[0] in ("int", "flt")]
    outs = [p for p in f["params"][1:] if tinfo(p["t"])[0] == "ptr"]
    want = exp(h, ps)
    v = setf(v, hn, False)
    oks = success(v, None) if isinstance(v, Poly) else []
    if len(oks) != 1:
        R.unknown("%s: result %s" % (n, str(v)[:80]))
        return
    cond = f_and(f_not(hn), *oks[0])
    bad, unk, tot = [], [], 0
    for o, w in zip(outs, want):
        base = (("D", ("in", (("P", o["n"]),))),)
        if not isinstance(w, list):
            got = I.read(st, base, tinfo(o["t"])[1])
            got = settle(got, cond)
            tot += 1
            if got != w:
                (unk if vague(got) else bad).append(("*" + o["n"], str(got)[:80], str(w)[:80]))
            continue
        flat = [(k,) for k in range(len(w))] if not (w and isinstance(w[0], list)) else \
            [(a, b) for a in range(len(w)) for b in range(len(w[a]))]
        for ix in flat:
            x = w[ix[0]] if len(ix) == 1 else w[ix[0]][ix[1]]
            if x is None:
                continue
            got = I.num(I.read(st, base + tuple(("[", C(k)) for k in ix), "double"))
            got = assume(got, cond)
            x = assume(x, cond)
            tot += 1
            r = cmpv(got, x)
            if r == "ne" and isinstance(got, Poly):
                # N > 0
                nz = f_and(f_ge0(h.N.v - ONE), f_not(f_eq0(h.N.v))) if n.startswith(("MoorDyn_GetLine", "MoorDyn_GetRod")) else None
                if nz is not None:
                    r = cmpv(deep_assume(got, nz), deep_assume(x, nz))
            if r != "eq":
                (bad if r == "ne" else unk).append(("%s%s" % (o["n"], "".join("[%d]" % k for k in ix)), show(got)[:160], show(x)[:160]))
    if bad:
        R.violation(n, loc(f), "; ".join("%s is set to %s instead of %s" % b for b in bad[:2]))
    elif unk:
        R.unknown("%s: %s" % (n, unk[0][0]))
    else:
        R.held("%s: %d values" % (n, tot))


def settle(v, c):
    if isinstance(v, IteV):
        k = feval(v.v[0], poly_facts(c))
        if k.k == "T":
            return settle(v.v[1], c)
        if k.k == "N":
            return settle(v.v[2], c)
    return v


def handles(P, R, n, f, lst):
    R.count("accessors")
    I = interp(P)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    i = param(I, f["params"][1]["n"], "int")
    L = getattr(h, lst)
    v = settle(v, f_not(hn))
    inr = f_and(f_ge0(i - ONE, False), f_ge0(L.size - i, False))
    got = value_under(v, [f_ge0(i - ONE), f_ge0(L.size - i), f_not(f_eq0(i))])
    want = L[i - ONE].v
    if got == want:
        R.held("%s(k) is the k-th object" % n)
    elif vague(got) or isinstance(got, IteV):
        R.unknown("%s: %s" % (n, str(got)[:100]))
    else:
        R.violation(n + " in range", loc(f), "for a number in range the handle is %s instead of %s" % (str(got)[:100], str(want)[:100]))
    for nm, c in (("number 0", [f_eq0(i)]), ("a number above the count", [f_ge0(i - L.size - ONE), f_ge0(i - ONE), f_not(f_eq0(i))])):
        got = value_under(v, c)
        if isnull(got):
            R.held("%s refuses %s" % (n, nm))
        elif vague(got) or isinstance(got, IteV):
            R.unknown("%s: %s" % (n, str(got)[:100]))
        else:
            R.violation("%s %s" % (n, nm), loc(f), "%s is not refused: the handle is %s" % (nm, str(got)[:100]))


def value_under(v, cs):
    return settle(v, f_and(*cs))


def plain(P, R, n, f, fld):
    R.count("accessors")
    I = interp(P)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    got, want = settle(v, f_not(hn)), getattr(h, fld).v
    if got == want:
        R.held("%s returns the %s of the system" % (n, fld))
    elif vague(got):
        R.unknown(n)
    else:
        R.violation(n, loc(f), "returns %s" % str(got)[:100])


def setter(P, R, n, f):
    R.count("setters")
    I = interp(P)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    p = param(I, f["params"][1]["n"], f["params"][1]["t"])
    for fld, want in SETTERS[n](I, h, p):
        if isinstance(fld, tuple):
            got = ONE
            for x in fld:
                got = got * I.num(I.read(st, x.path, x.ty))
        else:
            got = I.num(I.read(st, fld.path, fld.ty))
        got = assume(got, f_not(hn))
        r = cmpv(got, want)
        if r == "ne" and isinstance(fld, tuple):
            got = I.num(I.read(st, fld[0].path, fld[0].ty))
            got = assume(got, f_not(hn))
            r = cmpv(got, want * ppow(fld[1].v, -1))
        nm = "%s stores its argument" % n
        if r == "eq":
            R.held(nm)
        elif r == "ne":
            R.violation(n, loc(f), "after the call the value is %s instead of %s" % (show(got)[:120], show(want)))
        else:
            R.unknown(nm)


def ranges(P, R, n, f):
    E = P.__dict__.setdefault("_esc", None) or Escape(P)
    P._esc = E
    I = XApi(P, E, call_throws=False, inline_methods=lambda f: True)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    i = param(I, f["params"][1]["n"], "int")
    last = h.attached.size - ONE if n.endswith("Attached") else h.N.v
    if not isinstance(v, Poly):
        R.unknown("%s: result %s" % (n, str(v)[:80]))
        return
    v = setf(v, hn, False)
    R.count("index ranges")

    def at(c):
        w = v
        for x in c:
            w = assume(w, x)
        return [l for cs, l in cases(w) if all(feval(k, poly_facts(f_and(*c))).k != "N" for k in cs)]
    inside = at([f_ge0(last - i), f_ge0(i)])
    outside = at([f_ge0(i - last - ONE), f_ge0(i - last), f_not(f_eq0(i - last))])
    for nm, ls, ok in (("index in range accepted", inside, lambda c: c in (0, -4)), ("index out of range refused", outside, lambda c: c != 0)):
        if all(l.is_const() for l in ls):
            if all(ok(l.cval()) for l in ls):
                R.held("%s: %s" % (n, nm))
            else:
                R.violation("%s: %s" % (n, nm), loc(f), "returns %s" % "/".join(show(l) for l in ls))
        else:
            R.unknown("%s: %s: %s" % (n, nm, show(v)[:100]))


def maxten(P, R, n, f):
    """the maximum over all nodes, 0 .. N"""
    R.count("accessors")
    I = interp(P)
    loops = []
    I.on_loop = lambda info: loops.append(info)
    st, v = I.call_entry(f)
    h, hn = hof(I, f)
    o = f["params"][-1]["n"]
    got = assume(I.num(I.read(st, (("D", ("in", (("P", o),))), ("[", ZERO)), "double")), f_not(hn))
    N = h.N.v
    for info in loops:
        if info["n"] is None or not contains(got, lambda t: t == info["lid"]):
            continue
        it = Poly.atom(info["it"]) if not isinstance(info["it"], Poly) else info["it"]
        cnt = info["n"]
        r = cmpv(cnt, N + ONE)
        ten = norm2(list(tension(h, it).e))
        seen = contains(got, lambda t: any(isinstance(x, Poly) and x == ten for x in t) if type(t) is tuple else False)
        if r == "eq":
            R.held("%s: looks at %s" % (n, "the tension of nodes 0 to N" if seen else "N+1 nodes"))
        elif r == "ne":
            R.violation(n, loc(f), "looks at %s nodes, a line has N+1" % show(cnt))
        else:
            R.unknown("%s: %s nodes" % (n, show(cnt)[:60]))
        return
    R.unknown("%s: no bounded loop" % n)
