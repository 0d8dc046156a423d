"""C11: the load laws of lines and rods."""
import c10
from c10 import *
from poly import _int_poly

ZV = Mat(3, 1, (ZERO,) * 3)
G = Fraction
QTR = C(G(1, 4))


def run(P, R):
    R.rule("Line::getStateDeriv and Rod::doRHS are executed abstractly once for any number of segments, with a name for every intermediate result; "
           "each load of an end node and of an interior node is compared in normal form with the documented law.")
    line_flow(P, R)
    line_seabed(P, R)
    line_bending(P, R)
    for n in (NL, C(2), ONE, ZERO):
        rod_nodes(P, R, n)
    R.floor("methods", 2)


def fv(F):
    return Mat(3, 1, tuple(F))


def near_zero(g):
    """is the condition the comparison of a real number with zero up to rounding?"""
    if g.k not in ("ge", "gt") or not isinstance(g.v, Poly):
        return False
    ats = [atom(a) for a in g.v.atoms()]
    return len(ats) == 2 and all(type(t) is tuple and t[0] == "fn" for t in ats) and sorted(t[1] for t in ats) == ["abs", "max"] \
        and any(t[1] == "max" and ONE in t[2] for t in ats)


def plain(v):
    """maxima, minima and magnitudes as conditionals, which do not distinguish > from >= where it does not matter"""
    if isinstance(v, Mat):
        return Mat(v.r, v.c, tuple(plain(x) for x in v.e))
    if not isinstance(v, Poly):
        return v

    def pick(p, a, b):
        if p.is_const():
            return a if p.cval() > 0 else b
        g = f_gt0(p)
        if g.k != "gt":
            return ite(g, a, b)
        from poly import lead
        if lead(p)[1] < 0:
            p, a, b = -p, b, a
        return ite(f_gt0(p), a, b)

    def f(at):
        if type(at) is not tuple or not at:
            return None
        if at[0] == "fn" and at[1] in ("max", "min") and type(at[2]) is frozenset and len(at[2]) == 2:
            a, b = (subst(x, f) for x in at[2])
            return pick(a - b, a, b) if at[1] == "max" else pick(b - a, a, b)
        if at[0] == "fn" and at[1] == "abs" and isinstance(at[2], Poly):
            a = subst(at[2], f)
            return pick(a, a, -a)
        if at[0] == "ite":
            c, a, b = fsubst(at[1], f, {}), subst(at[2], f), subst(at[3], f)
            if c.k in ("gt", "ge"):
                d = a - b
                for k in (ONE, -ONE, C(2), C(-2)):
                    if is_zero(d - k * c.v):
                        return pick(c.v, a, b)
            return ite(c, a, b)
        return None
    return subst(v, f)


def generic(v):
    """v where no compared quantity is within rounding of zero"""
    if isinstance(v, Mat):
        return Mat(v.r, v.c, tuple(generic(x) for x in v.e))
    if not isinstance(v, Poly):
        return v

    def cond(g):
        if g.k in ("and", "or"):
            return (f_and if g.k == "and" else f_or)(*[cond(x) for x in g.v])
        if g.k == "not":
            return f_not(cond(g.v))
        if g.k == "eq" and isinstance(g.v, Poly) and not _int_poly(g.v) and not _int_poly(g.v.scale(-1)):
            return FALSE
        return FALSE if near_zero(g) else TRUE if near_zero(f_not(g)) else g

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            c = cond(fsubst(at[1], f, {}))
            a = subst(at[2], f) if c.k != "N" else ZERO
            b = subst(at[3], f) if c.k != "T" else ZERO
            return a if c.k == "T" else b if c.k == "N" else ite(c, a, b)
        return None
    return subst(v, f)


def law(R, X, what, got, exps, own=(), where=None):
    """equality; a quantity within rounding of zero may be treated apart"""
    key = "%s: %s" % (X.what, what)
    if got is None:
        return R.unknown(key)
    rs = set()
    for e in exps:
        try:
            r = verdict(X, got, [e], own, full=False)
        except TooBig:
            r = "ne"
        if r != "eq":
            r = deeper(X, got, e, own)
        rs.add(r)
        if r == "eq":
            return R.held(key)
    if rs == {"ne"}:
        try:
            how = diff(*(generic(settle(X.I.expand(y, own), NN)) for y in (got, exps[0])))
        except TooBig:
            how = "it does not follow its law"
        return R.violation("%s|%s" % (X.what, what), where or loc(X.f), "%s: %s is wrong: %s" % (X.what, what, how))
    R.unknown(key)


def names(v):
    """the named intermediate results that a value uses"""
    out = set()

    def f(at):
        if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple:
            t = at[1] if at[1][0] == "in" else at[1][0] if len(at[1]) == 2 else None
            if type(t) is tuple and t and t[0] == "in" and t[1] and t[1][0][0] == "C":
                out.add(t[1][0][1])
        return None
    for x in v.e if isinstance(v, Mat) else (v,):
        if isinstance(x, Poly):
            subst(x, f)
    return out


def deeper(X, got, e, own):
    """comparison in the regular case, with the definitions of the names put back if both sides do not use the same ones"""
    try:
        g, x = (plain(generic(settle(X.I.expand(y, o), NN))) for y, o in ((got, own), (e, ())))
        r = both(g, x)
    except TooBig:
        return "?"
    if r == "eq":
        return r
    if r == "ne" and names(g) == names(x):
        return "?" if leaves_ok(g, x) else "ne"
    try:
        g, x = (plain(generic(settle(X.I.expand(y), NN))) for y in (got, e))
        r2 = both(g, x)
    except TooBig:
        return "?"
    return r2 if r2 != "ne" else "?" if leaves_ok(g, x) else r


def both(g, x):
    """comparison with the neighbouring nodes at the ends or not"""
    r = cmpv(g, x)
    if r != "ne":
        return r
    rs = set()
    for k in (ZERO, KP + ONE):
        for j in (ZERO, JP + ONE):
            m = {atom(next(iter(KP.atoms()))): k, atom(next(iter(JP.atoms()))): j}
            sb = lambda v: Mat(v.r, v.c, tuple(sb(y) for y in v.e)) if isinstance(v, Mat) else settle(subst(v, lambda at: m.get(at)), NN)
            rs.add(cmpv(sb(g), sb(x)))
    return "ne" if "ne" in rs else "?" if "?" in rs else "eq"


def leaves_ok(g, x):
    """every component has a case that is right: only a condition differs"""
    if not isinstance(g, Mat):
        g, x = Mat(1, 1, (g,)), Mat(1, 1, (x,))
    for a, b in zip(g.e, x.e):
        if not any(cmpv(la, lb) == "eq" for _, la in cases(a) for _, lb in cases(b)):
            return False
    return all(cmpv(a, b) == "eq" or find_ite(a) is not None and find_ite(b) is None for a, b in zip(g.e, x.e))


def split(v, q):
    """components along and across a direction"""
    a = scal(dot(v, q), q)
    return a, add(v, neg(a))


def norm(X, v):
    return psqrt(X.I.sumsq(v.e))


# ---------------------------------------------------------------- lines
@guarded
def line_flow(P, R):
    X = line_run(P, R, 0)
    if X is None:
        return
    I, env = X.I, X.this.env
    rho, pi, d = env.rho_w.v, const(P, "pi"), X.ini("d")
    for nm, i in NODES:
        seg = around(i)
        q = X.fin("q", i)
        U, Ud = (wave(X, "getWaveKinLine", "lineId", k, i) for k in ("U", "Ud"))
        vq, vp = split(add(U, neg(X.ini("rd", i))), q)
        aq, ap = split(Ud, q)
        L = V = ZERO
        for s in seg:
            L = L + X.fin("F", s) * X.ini("l", s)
            V = V + HALF * X.fin("F", s) * X.ini("V", s)
        law(R, X, "transverse drag of " + nm, X.fin("Dp", i), [scal(QTR * rho * X.ini("Cdn") * d * L * norm(X, vp), vp)], ("Dp",))
        law(R, X, "axial drag of " + nm, X.fin("Dq", i), [scal(QTR * rho * X.ini("Cdt") * pi * d * L * norm(X, vq), vq)], ("Dq",))
        law(R, X, "transverse fluid inertia of " + nm, X.fin("Ap", i), [scal(rho * (ONE + X.ini("Can")) * V, ap)], ("Ap",))
        law(R, X, "axial fluid inertia of " + nm, X.fin("Aq", i), [scal(rho * (ONE + X.ini("Cat")) * V, aq)], ("Aq",))
        if i != NL:
            s = ZERO if i == ZERO else i
            zs = HALF * (wave(X, "getWaveKinLine", "lineId", "zeta", s) + wave(X, "getWaveKinLine", "lineId", "zeta", s + ONE))
            h = [X.ini("r", s + C(k)).e[2] - zs for k in (0, 1)]
            got = settle(I.expand(X.fin("F", s), ("F",)), NN)
            nm2 = "the first segment" if i == ZERO else "a segment"
            regime(R, X, "submerged fraction of %s under water" % nm2, got, [f(-x) for x in h for f in (f_gt0, f_ge0)], ONE)
            for k in (0, 1):
                crossing(R, X, "submerged fraction of %s with only its %s end under water" % (nm2, ("first", "last")[k]), got, h[k], h[1 - k])
            regime(R, X, "submerged fraction of %s out of the water" % nm2, got, [f(x) for x in h for f in (f_gt0, f_ge0)], ZERO)
        # the node's direction
        a, b = (i - ONE if i != ZERO else i), (i + ONE if i != NL else i)
        dr = add(X.ini("r", b), neg(X.ini("r", a)))
        if i not in (ZERO, NL):
            direction(R, X, "direction of " + nm, q, None, dr, ("q",))


def crossing(R, X, what, got, lo, up):
    """a segment across the surface: for a thin line the wet part of its length"""
    facts = f_and(f_gt0(-lo), f_gt0(up), f_ge0(-lo), f_ge0(up), f_not(f_eq0(lo + up)))
    d = atom(next(iter(X.ini("d").atoms())))
    v = generic(deep_assume(deep_assume(got, facts), facts))
    if not v.is_const():
        v = subst(v, lambda at: ZERO if at == d else None)
    a = X.I.math("abs", [lo])
    r = cmpv(v, pdiv(a, a + up))
    if r == "eq":
        return R.held("%s: %s" % (X.what, what))
    if v.is_const():
        return R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: %s is always %s" % (X.what, what, v.cval()))
    R.unknown("%s: %s" % (X.what, what))


@guarded
def line_seabed(P, R):
    X = line_run(P, R, 0)
    if X is None:
        return
    for nm, i in NODES:
        L = ZERO
        for s in around(i):
            L = L + X.ini("l", s)
        seabed(R, X, nm, X.fin("B", i), X.ini("r", i), X.ini("rd", i), HALF * X.ini("d") * L, True)


def seabed(R, X, nm, got, r, rd, area, friction):
    env, I = X.this.env, X.I
    sf = X.this.seafloor
    z = ite(f_atom(("isnull", ("in", sf.path))), -env.WtrDpth.v, I.answer("getDepthAt", sf.v, (r.e[0], r.e[1]), None, ("flt",)))
    Fz = ((z - r.e[2]) * env.kb.v - rd.e[2] * env.cb.v) * area
    touch = f_gt0(z - r.e[2])
    flat = [ZERO, ZERO]
    if friction:
        mu, cv, sc = env.FrictionCoefficient.v, env.FricDamp.v, env.StatDynFricScale.v
        top = I.math("abs", [Fz]) * mu
        v = psqrt(rd.e[0] * rd.e[0] + rd.e[1] * rd.e[1])
        ff = v * mu * cv
        ff = ite(f_gt0(ff - sc * top), top, ff)
        flat = [ite(f_eq0(v), ZERO, -ff * pdiv(rd.e[k], v)) for k in (0, 1)]
    alts = []
    for c in (touch, f_ge0(z - r.e[2])):
        alts.append(Mat(3, 1, tuple(ite(c, x, ZERO) for x in flat + [Fz])))
    for k, what in ((0, "friction in x of "), (1, "friction in y of "), (2, "seabed reaction of ")):
        law(R, X, what + nm, got.e[k] if isinstance(got, Mat) else None, [a.e[k] for a in alts], ("B",))


_bend = {}


def bend_run(P, R, end, tables):
    if (end, tables) not in _bend:
        f = one(P, R, LINE, "getStateDeriv", 0)
        if not f:
            return None
        ev = enum_vals(P, LINE)[end]
        pre = [(k, ZERO, "int") for k in ("nEApoints", "nCpoints")] + [("nEIpoints", C(tables), "int"), ("isPb", TRUE, "bool")]
        pre += [("endTypeA", C(ev), "int"), ("endTypeB", C(ev), "int")]
        X = LX(P, LINE, f, n=NL, cut=[k for k in LINE_CUT if k not in ("Bs", "Pb")], pre=pre, pos=("EI",))
        X.what += " with bending stiffness" + (" tables" if tables else "") + ", ends %s" % end.lower()
        _bend[(end, tables)] = X
    X = _bend[(end, tables)]
    if X.dead():
        R.violation("%s|rejects" % X.what, loc(X.f), "%s always throws" % X.what)
        return None
    return X


def line_bending(P, R):
    for end in ("CANTILEVERED", "PINNED"):
        bending(P, R, end)


@guarded
def bending(P, R, end):
    X = bend_run(P, R, end, 0)
    if X is None:
        return
    I, env = X.I, X.this.env
    EI, A = X.ini("EI"), X.ini("A")
    K, p, qs, ls = (lambda i: X.fin("Kurv", i)), (lambda i: X.fin("pvec", i)), (lambda i: X.fin("qs", i)), (lambda i: X.fin("lstr", i))

    def push(c, s):
        """force on the other node of segment s due to the curvature at node c"""
        return scal(pdiv(K(c) * EI, ls(s)), cross(qs(s), p(c)))
    for nm, i in NODES:
        free = end == "PINNED" and i in (ZERO, NL)
        # curvature and its axis
        if i in (ZERO, NL):
            s = ZERO if i == ZERO else NL - ONE
            a, b = (X.fin("q", i), qs(s)) if i == ZERO else (qs(s), X.fin("q", i))
            ln = ls(s)
        else:
            a, b, ln = qs(i - ONE), qs(i), ls(i - ONE) + ls(i)
        if free:
            judge(R, X, "curvature of " + nm, K(i), [ZERO])
        else:
            part(R, X, "curvature of " + nm, K(i), pdiv(C(4), ln) * psqrt(HALF * (ONE - dot(a, b))), ("Kurv",))
            axis(R, X, "axis of the curvature of " + nm, p(i), cross(a, b))
        if i in (ZERO, NL):
            e = (ZERO, ONE) if i == ZERO else (NL - ONE, NL)
            if free:
                direction(R, X, "direction of " + nm, X.fin("q", i), None, add(X.ini("r", e[1]), neg(X.ini("r", e[0]))), ("q",))
            else:
                judge(R, X, "direction of " + nm, X.fin("q", i), [X.ini("q", i)])
        F = ZV
        for s in around(i):
            c = s + ONE if s == i else s
            F = add(F, push(c, s))
            if not free:
                F = add(F, neg(push(i, s)))
        law(R, X, "bending load of " + nm, X.fin("Bs", i), [F])
        L = ZERO
        for s in around(i):
            L = L + X.ini("l", s)
        zeta, pd = (wave(X, "getWaveKinLine", "lineId", k, i) for k in ("zeta", "pdyn"))
        h = I.math("max", [ZERO, zeta - X.ini("r", i).e[2]])
        pr = X.ini("pin", i) - (env.rho_w.v * env.g.v * h + pd)
        Pb = scal(HALF * A * L * pr * K(i), cross(X.fin("q", i), p(i)))
        if free:
            Pb = ZV
        law(R, X, "pressure load of " + nm, X.fin("Pb", i), [Pb])


def part(R, X, what, got, exp, own):
    """the expected value, or zero under some condition"""
    v, exp = generic(settle(X.I.expand(got, own), NN)), generic(exp)
    rs = set()
    for cs, leaf in cases(v):
        r = cmpv(leaf, exp)
        rs.add(r if r == "eq" else "z" if is_zero(leaf) else "?" if r == "?" or find_ite(leaf) is not None else r)
    if "eq" in rs and rs <= {"eq", "z"}:
        return R.held("%s: %s" % (X.what, what))
    if rs and "?" not in rs and "eq" not in rs:
        return judge(R, X, what, v, [exp])
    R.unknown("%s: %s" % (X.what, what))


def axis(R, X, what, got, dr):
    """unit vector along dr, or dr, or zero"""
    if not isinstance(got, Mat):
        return R.unknown("%s: %s" % (X.what, what))
    v, dr = generic(settle(X.I.expand(got, ("pvec",)), NN)), generic(dr)
    nn = norm(X, dr)
    rs = set()
    for k in range(3):
        for cs, leaf in cases(v.e[k]):
            r = cmpv(leaf, pdiv(dr.e[k], nn))
            rs.add(r if r == "eq" else "z" if is_zero(leaf) or cmpv(leaf, dr.e[k]) == "eq" else "?" if r == "?" or find_ite(leaf) is not None else r)
    if "eq" in rs and rs <= {"eq", "z"}:
        return R.held("%s: %s" % (X.what, what))
    if "?" not in rs and "eq" not in rs:
        return R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: the %s is not the unit vector normal to both directions" % (X.what, what))
    R.unknown("%s: %s" % (X.what, what))


def rod_angles(P, X):
    fs = [f for f in P.funcs.values() if f["qn"] == "moordyn::orientationAngles" and f.get("body")]
    st, v = X.I.call_entry(fs[0], None, {fs[0]["params"][0]["n"]: X.ini("q")})
    return pair(v)


def rod_expect(P, X, n, i):
    """the loads of a node, in terms of its submerged fraction"""
    I, env = X.I, X.this.env
    rho, g, pi, d = env.rho_w.v, env.g.v, const(P, "pi"), X.ini("d")
    m = lambda f, x: I.math(f, [x])
    phi, beta = rod_angles(P, X) if n != ZERO else (ZERO, ZERO)
    sP, cP, sB, cB = m("sin", phi), m("cos", phi), m("sin", beta), m("cos", beta)
    q, vof = X.ini("q"), X.fin("VOF", i)
    area = pi * d * d * QTR
    dL = vi = ZERO
    if n != ZERO:
        for s in ([i - ONE] if i != ZERO else []) + ([i] if i != n else []):
            dL = dL + HALF * X.ini("l", s)
            vi = vi + HALF * X.fin("V", s)
    r, rd = X.fin("r", i), X.fin("rd", i)
    zeta = wave(X, "getWaveKinRod", "rodId", "zeta", n)
    U, Ud, pd = (wave(X, "getWaveKinRod", "rodId", k, i) for k in ("U", "Ud", "pdyn"))
    vq, vp = split(add(U, neg(rd)), q)
    aq, ap = split(Ud, q)
    E = {}
    E["W"] = Mat(3, 1, (ZERO, ZERO, -area * dL * X.ini("rho") * g))
    b = vof * vi * rho * g * sP
    E["Bo"] = Mat(3, 1, (-b * cB * cP, -b * sB * cP, b * sP))
    E["Dp"] = scal(HALF * vof * rho * X.ini("Cdn") * d * dL * norm(X, vp), vp)
    E["Ap"] = scal(vof * rho * (ONE + X.ini("Can")) * vi, ap)
    E["Dq"] = E["Aq"] = E["Pd"] = ZV
    # end effects
    half = HALF * d * m("abs", sP)
    hi, lo = r.e[2] + half, r.e[2] - half
    wet = f_gt0(zeta - lo)
    ends = ([1] if i == ZERO else []) + ([-1] if i == n else [])
    w = lambda v: Mat(v.r, v.c, tuple(ite(wet, x, ZERO) for x in v.e))
    vt = pi * d * d * d * C(G(1, 12))
    E["end"] = []
    for e in ends:
        E["Dq"] = add(E["Dq"], w(scal(HALF * vof * area * rho * X.ini("CdEnd") * norm(X, vq), vq)))
        E["Aq"] = add(E["Aq"], w(scal(vof * rho * X.ini("CaEnd") * vt, aq)))
        E["Pd"] = add(E["Pd"], w(scal(C(e) * vof * area * pd, q)))
        E["end"].append((e, wet, vof * area * rho * g, (cB * sP, sB * sP, cP), vof * C(G(1, 64)) * pi * d * d * d * d * rho * g * sP, (sB, -cB, ZERO)))
    E["area"] = d * dL
    Q, eye = I.mm(q, tr(q)), I.eye(3, 3)
    ms = add(scal(area * dL * X.ini("rho"), eye), scal(vof * rho * vi, add(scal(X.ini("Can"), add(eye, neg(Q))), scal(X.ini("Cat"), Q))))
    for e in ends:
        ms = add(ms, w(scal(vof * rho * X.ini("CaEnd") * vt, Q)), line_ends(X, "attachedA" if e == 1 else "attachedB", 2))
    E["M"] = ms
    return E, r, rd, (lo, hi, zeta)


NAMES = {"W": "weight", "Bo": "buoyancy", "Dp": "transverse drag", "Dq": "axial drag", "Ap": "transverse fluid inertia", "Aq": "axial fluid inertia",
         "Pd": "dynamic pressure load", "B": "seabed load"}


@guarded
def rod_nodes(P, R, n):
    X = rod_run(P, R, n)
    if X is None:
        return
    nodes = (("end A", ZERO), ("end B", n)) + ((("an interior node", ONE if n == C(2) else ONE + KP),) if n != ONE else ())
    if n == ZERO:
        nodes = (("its node", ZERO),)
    M = add(line_ends(X, "attachedA", 1), line_ends(X, "attachedB", 1))
    for nm, i in nodes:
        E, r, rd, (lo, hi, zeta) = rod_expect(P, X, n, i)
        for k in ("W", "Dp", "Dq", "Ap", "Aq", "Pd"):
            law(R, X, NAMES[k] + " of " + nm, X.fin(k, i), [E[k]], (k,))
        if n != ZERO:
            law(R, X, "mass matrix of " + nm, X.fin("M", i), [E["M"]])
        for e, wet, _, _, m, dr in E["end"]:
            M = add(M, Mat(3, 1, tuple(ite(wet, C(-e) * m * x, ZERO) for x in dr)))
        if n == ZERO:
            judge(R, X, "seabed load of its node", X.fin("B", i), [ZV])
            continue
        if i not in (ZERO, n):
            law(R, X, "buoyancy of " + nm, X.fin("Bo", i), [E["Bo"]], ("Bo",))
        else:
            got = settle(X.I.expand(X.fin("Bo", i), ("Bo",)), NN)
            dry = [f_gt0(lo - zeta), f_not(f_gt0(zeta - lo)), f_not(f_gt0(zeta - hi))]
            under = [f_gt0(zeta - hi), f_gt0(zeta - lo), f_not(f_gt0(lo - zeta))]
            regime(R, X, "buoyancy of %s out of the water" % nm, got, dry, E["Bo"])
            v = E["Bo"]
            for e, _, p, dr, _, _ in E["end"]:
                v = add(v, Mat(3, 1, tuple(C(-e) * p * r.e[2] * x for x in dr)))
            regime(R, X, "buoyancy of %s under water" % nm, got, under, v)
        seabed(R, X, nm, X.fin("B", i), r, rd, E["area"], False)
        fraction(P, R, X, n, nm, i, (lo, hi, zeta))
    h0 = X.fin("h0")
    ra, rb = X.fin("r", ZERO).e[2], X.fin("r", n).e[2]
    z = zeta - ra
    up = pdiv(z, X.ini("q").e[2])
    a, b = f_gt0(zeta - ra), f_gt0(zeta - rb)
    na, nb = f_gt0(ra - zeta), f_gt0(rb - zeta)
    if n == ZERO:
        return law(R, X, "moment", X.fin("Mext"), [M])
    phi, beta = rod_angles(P, X)
    m = lambda f, x: X.I.math(f, [x])
    d, env = X.ini("d"), X.this.env
    wp = C(G(1, 16)) * const(P, "pi") * d * d * d * d * env.rho_w.v * env.g.v * m("sin", phi) * m("cos", phi)
    dr = (m("sin", beta), -m("cos", beta), ZERO)
    alts = [add(M, Mat(3, 1, tuple(ite(c, wp * x, ZERO) for x in dr))) for c in (f_and(a, nb), f_or(f_and(a, nb), f_and(b, na)))]
    if n.is_const():
        law(R, X, "moment about end A besides that of the nodal forces", X.fin("Mext"), alts)
    law(R, X, "waterline along the rod", h0, [ite(f_and(a, b), X.ini("UnstrLen"), ite(f_and(a, nb), up, ite(f_and(b, na), -up, ZERO)))], ("h0",))


def regime(R, X, what, got, facts, exp):
    """equality where some conditions hold"""
    def at(v):
        for _ in range(2):
            v = deep_assume(v, f_and(*facts))
        return v
    g = Mat(got.r, got.c, tuple(at(x) for x in got.e)) if isinstance(got, Mat) else at(got)
    r = cmpv(g, exp)
    key = "%s: %s" % (X.what, what)
    if r == "eq":
        return R.held(key)
    if r == "ne":
        es, xs = (v.e if isinstance(v, Mat) else (v,) for v in (g, exp))
        if all(conds(x) <= conds(y) for x, y in zip(es, xs)):
            return R.violation("%s|%s" % (X.what, what), loc(X.f), "%s: %s is wrong: %s" % (X.what, what, diff(g, exp)))
    R.unknown(key)


def conds(v):
    """the conditions that a value depends on"""
    out = set()

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            out.add(at[1])
        return None
    subst(v, f)
    return out


@guarded
def fraction(P, R, X, n, nm, i, levels):
    """submerged fraction of a node"""
    lo, hi, zeta = levels
    if not n.is_const():
        return
    phi, beta = rod_angles(P, X)
    s2, c2 = (X.I.math(f, [phi]) * X.I.math(f, [phi]) for f in ("sin", "cos"))
    N, k = int(n.cval()), int(i.cval())
    dl = [HALF * ((X.ini("l", C(j)) if j < N else ZERO) + (X.ini("l", C(j - 1)) if j else ZERO)) for j in range(N + 1)]
    a = ZERO
    for j in range(k):
        a = a + dl[j]
    b = a + dl[k]
    h = X.fin("h0")
    got = settle(X.I.expand(X.fin("VOF", i), ("VOF",)), NN)
    sides = {"out of the water": ([f_gt0(lo - zeta), f_not(f_gt0(zeta - hi))], ZERO), "under water": ([f_gt0(zeta - hi), f_not(f_gt0(lo - zeta))], s2)}
    up, dn = [f_ge0(h)], [f_gt0(-h)]
    along = {"beneath the waterline": (up + [f_ge0(h - b), f_gt0(h - a)], ONE), "across the waterline": (up + [f_gt0(b - h), f_gt0(h - a)], pdiv(h - a, dl[k])),
             "above the waterline": (up + [f_gt0(b - h), f_ge0(a - h)], ZERO),
             "beneath the waterline, end A up": (dn + [f_ge0(a + h)], ONE),
             "across the waterline, end A up": (dn + [f_gt0(-h - a), f_gt0(b + h)], pdiv(b + h, dl[k])),
             "above the waterline, end A up": (dn + [f_gt0(-h - a), f_ge0(-h - b)], ZERO)}
    for sk, (sc, sv) in sides.items():
        for ak, (ac, av) in along.items():
            if k == 0 and ak == "beneath the waterline, end A up":
                continue
            regime(R, X, "submerged fraction of %s, cross section %s, %s" % (nm, sk, ak), got, sc + ac, av * c2 + sv)
