"""C06: every integrator applies a consistent formula of its advertised order."""
from model import *
from schemes import *
from util import *
from algebra import OpRun, state_classes, methods, comps, THIS as ATHIS
import algebra
from poly import _atoms

ORDER = {"EulerScheme": 1, "LocalEulerScheme": 1, "RK2Scheme": 2, "RK4Scheme": 4}
DTM = next(iter(DT.t))[0][0]


def short(c):
    return c.replace("moordyn::", "")


def stage_lin(p, over):
    """p = r0 + dt * sum c_j F_j  ->  {F_j: c_j} or None"""
    q = p - R0
    out = {}
    for m, c in q.t.items():
        d = dict(m)
        if d.pop(aid(("v", "dt")), 0) != 1 or len(d) != 1:
            return None
        (a, e), = d.items()
        if e != 1 or _atoms[a][0] not in over:
            return None
        out[_atoms[a]] = out.get(_atoms[a], 0) + c
    return out


def tableau(r):
    b = stage_lin(r, ("f",))
    if b is None:
        return None
    stages, A, todo = [], {}, list(b)
    while todo:
        s = todo.pop()
        if s in A:
            continue
        row = stage_lin(s[1], ("f",))
        if row is None:
            return None
        A[s] = row
        todo.extend(row)
    names = sorted(A, key=repr)
    return names, A, b


def order_of(names, A, b):
    """highest p <= 4 whose order conditions hold"""
    n = range(len(names))
    a = [[A[names[i]].get(names[j], Fraction(0)) for j in n] for i in n]
    w = [b.get(x, Fraction(0)) for x in names]
    c = [sum(a[i]) for i in n]
    S = lambda v: sum(w[i] * v[i] for i in n)
    mv = lambda v: [sum(a[i][j] * v[j] for j in n) for i in n]
    had = lambda u, v: [x * y for x, y in zip(u, v)]
    one = [Fraction(1)] * len(names)
    conds = [
        [(S(one), 1)],
        [(S(c), Fraction(1, 2))],
        [(S(had(c, c)), Fraction(1, 3)), (S(mv(c)), Fraction(1, 6))],
        [(S(had(c, had(c, c))), Fraction(1, 4)), (S(had(c, mv(c))), Fraction(1, 8)),
         (S(mv(had(c, c))), Fraction(1, 12)), (S(mv(mv(c))), Fraction(1, 24))],
    ]
    p = 0
    for cs in conds:
        if all(x == y for x, y in cs):
            p += 1
        else:
            break
    return p


def run(P, R):
    R.rule("From the abstract execution of Step (see C05) the coefficients of the scheme are read off as exact "
           "rationals: with unit derivatives every scheme advances the state by dt; Euler, RK2, RK4 satisfy the Butcher "
           "order conditions of order 1, 2, 4; the k-step Adams-Bashforth formula satisfies the k order conditions; "
           "every derivative is evaluated at a time that matches the state it is evaluated for.")
    R.rule("The Adams-Bashforth history shift must leave in slot k+1 what slot k held before. The Newmark, Wilson and "
           "stationary combinations must have the documented component-wise normal form on every object kind.")
    R.assume.append("real arithmetic; the Heun predictor-corrector, which reuses the previous derivative by design, is only checked for consistency")
    for cls in schemes(P):
        f = step_fn(P, cls)
        if f is None:
            continue
        name = short(cls)
        key = name + "::Step"
        if name.startswith("ABScheme"):
            ab(P, R, cls, f)
            continue
        try:
            r = run_step(P, cls)
        except Limit as x:
            R.unknown("%s: %s" % (key, x))
            continue
        R.count("integrators")
        consistency(R, key, f, r)
        if name in ORDER:
            tb = tableau(r["r"])
            if tb is None:
                R.unknown("%s: not an explicit Runge-Kutta form: %s" % (key, show(r["r"])[:200]))
            else:
                p = order_of(*tb)
                if p >= ORDER[name]:
                    R.held("%s: order conditions up to %d (%d stages)" % (key, ORDER[name], len(tb[0])))
                else:
                    R.violation(key + " order", loc(f), "the coefficients satisfy the order conditions only up to order %d, "
                                "the scheme is advertised as order %d; new state: %s" % (p, ORDER[name], show(r["r"])[:400]))
        if "Newmark" in name or "Wilson" in name:
            implicit_args(P, R, cls, f, r)
    shift(P, R)
    combos(P, R)
    R.floor("integrators", 5)


def consistency(R, key, f, r):
    u = unit(r["r"])
    c = "?" if key.startswith("Stationary") else cmpv(u, R0 + DT)
    if c == "eq":
        R.held("%s: consistent (weights sum to 1)" % key)
    elif c == "ne":
        R.violation(key + " weights", loc(f), "with a unit derivative the state advances by %s instead of dt" % show(u - R0))
    else:
        R.unknown("%s: weights %s" % (key, show(u)[:200]))
    if key.startswith(("Heun", "Stationary")):
        return
    for e, pre in flat_events(r["st"].ev):
        if e[0] != "deriv":
            continue
        R.count("derivative evaluations")
        dr = unit(e[1]) - R0
        for nm, d in (("clock", e[2] - T0), ("local clock", e[3] - TL0)):
            c = cmpv(dr, d, ("fresh", "call", "out", "undef"))
            if c == "eq":
                R.held("%s: derivative at line %s, state and %s agree" % (key, e[4], nm))
            elif c == "ne" and not vague(dr) and not vague(d):
                R.violation("%s stage %s" % (key, nm), loc(f), "derivative (line %s) of the state at t0 + %s is evaluated with the %s at t0 + %s"
                            % (e[4], show(dr), nm, show(d)))
            else:
                R.unknown("%s: stage %s vs %s" % (key, show(dr)[:80], show(d)[:80]))


def ab(P, R, cls, f):
    name = short(cls)
    key = name + "::Step"
    order = None
    rec = P.classes.get(cls)
    for x in (rec or {}).get("ta", ()):
        if type(x) is int:
            order = x
            break
    for k in range(0, (order or 4) + 1):
        try:
            r = run_step(P, cls, {"n_steps": C(k)})
        except Limit as x:
            R.unknown("%s: %s" % (key, x))
            return
        R.count("integrators")
        if k == 0:
            consistency(R, key, f, r)
        # derivative j steps back
        w = {}
        ok = True
        for m, c in (r["r"] - R0).t.items():
            d = dict(m)
            if d.pop(aid(("v", "dt")), 0) != 1 or len(d) != 1:
                ok = False
                break
            (a, e), = d.items()
            at = _atoms[a]
            if at[0] == "f":
                j = 0
            elif at[0] == "old":
                j = at[1] + 1      # slot before the shift
            else:
                ok = False
                break
            w[j] = w.get(j, 0) + c
        if not ok:
            R.unknown("%s with %d earlier derivatives: %s" % (key, k, show(r["r"])[:200]))
            continue
        if any(j > k for j in w):
            R.violation("%s start %d" % (key, k), loc(f), "with only %d earlier derivatives available the formula uses derivative %d" % (k, max(w)))
            continue
        p = 0
        for m in range(0, k + 1):
            if sum(c * Fraction(-j) ** m for j, c in w.items()) == Fraction(1, m + 1):
                p += 1
            else:
                break
        if p == k + 1:
            R.held("%s: %d-derivative formula has order %d" % (key, k + 1, p))
        else:
            R.violation("%s coefficients %d" % (key, k + 1), loc(f), "the formula with %d derivatives has order %d: weights %s"
                        % (k + 1, p, [str(w[j]) for j in sorted(w)]))


def shift(P, R):
    """rd[k+1] after == rd[k] before"""
    for cls in schemes(P):
        if not short(cls).startswith("ABScheme"):
            continue
        fs = [f for f in P.fn(cls + "::shift") if not f["params"]]
        if not fs:
            R.unknown("%s: no history shift" % short(cls))
            continue
        f = fs[0]
        I = Interp(P, budget=300000)
        I.dyn[THIS] = cls
        n = None
        for _, fl in P.all_fields(cls):
            if fl["n"] == "rd":
                k = tinfo(fl["t"])
                n = k[2] if k[0] == "arr" else None
        if not n:
            R.unknown("%s: history length" % short(cls))
            continue
        try:
            s, _ = I.call_entry(f, this=THIS, st=State())
        except Limit as x:
            R.unknown("%s::shift: %s" % (short(cls), x))
            continue
        R.count("history shifts")
        bad = {}
        dec = 0
        for k in range(n - 1):
            for kind in ("lines", "points", "rods", "bodies"):
                ix = ("v", ("ix", kind))
                mark_int(ix)
                base = lambda slot: THIS + ((".", "rd"), ("[", C(slot)), (".", kind), ("[", Poly.atom(ix)), (".", "acc"))
                I.bounds[aid(ix)] = I.num(I.read(State(), THIS + ((".", kind), (".", "#size")), "unsigned long"))
                ty = {"lines": "std::vector<Eigen::Matrix<double, 3, 1>>", "points": "Eigen::Matrix<double, 3, 1>"}.get(kind, "Eigen::Matrix<double, 6, 1>")
                if kind == "lines":
                    continue
                got = I.read(s, base(k + 1), ty)
                prev = I.read(State(), base(k), ty)
                own = I.read(State(), base(k + 1), ty)
                for g, p0, o in zip(comps(got), comps(prev), comps(own)):
                    for cs, leaf in cases(g):
                        if leaf == p0 or leaf == o:
                            dec += 1
                        elif not vague(leaf):
                            src = None
                            for j in range(n):
                                if leaf in comps(I.read(State(), base(j), ty)):
                                    src = j
                            bad.setdefault((k + 1, src), (kind, show(leaf)))
        for (k, src), (kind, sh) in sorted(bad.items(), key=str):
            R.violation("AB history: slot %d takes %s" % (k, "another value" if src is None else "slot %d" % src), loc(f),
                        "after the shift slot %d of the %s holds %s instead of what slot %d held" % (k, kind, sh, k - 1))
        if not bad and dec:
            R.held("%s: history shift keeps every earlier derivative (%d components)" % (short(cls), dec))
        elif not bad:
            R.unknown("%s: history shift" % short(cls))


def implicit_args(P, R, cls, f, r):
    """the new state is r0 + dt * combination(previous, new derivative, dt...) with the
    scheme's own coefficients in the right places"""
    name = short(cls)
    key = name + "::Step"
    which = "Newmark" if "Newmark" in name else "Wilson"
    ats = [_atoms[a] for a in r["r"].atoms() if _atoms[a][0] == which]
    if len(ats) != 1:
        R.unknown("%s: %d %s combinations in the new state" % (key, len(ats), which))
        return
    at = ats[0]
    if at[1] != Poly.atom(("old", 0)) and not contains(at[1], lambda t: t[0] in ("old", "loopout", "mu")):
        R.violation(key + " base", loc(f), "the combination starts from %s" % show(at[1])[:200])
    if which == "Newmark":
        c = cmpv(at[3], DT)
        want = {4: "gamma", 5: "beta"}
    else:
        c = cmpv(at[3], DT)
        want = {}
    if c == "ne":
        R.violation(key + " length", loc(f), "the final combination advances %s instead of dt" % show(at[3]))
    elif c == "eq":
        R.held("%s: final combination advances dt" % key)
    ctor = None
    for g in P.fn(cls + "::" + name.split("<")[0]):
        if not g.get("defaulted") and g["params"] and len(g["params"]) >= 3:
            ctor = g
    if ctor is None:
        R.unknown("%s: constructor" % key)
        return
    I = Interp(P, budget=100000)
    try:
        s, _ = I.call_entry(ctor, this=THIS, st=State())
    except Limit as x:
        R.unknown("%s: constructor %s" % (key, x))
        return
    inp = {p["n"]: I.num(I.read(State(), (("P", p["n"]),), "double")) for p in ctor["params"] if tinfo(p["t"])[0] == "flt"}

    def resolve(p):
        def g(a):
            if type(a) is tuple and a[0] == "v" and type(a[1]) is tuple and a[1][0] == "in" and a[1][1][0] == ("T", "this") and len(a[1][1]) == 2:
                return I.num(I.read(s, a[1][1], "double"))
            return None
        return subst(p, g)
    if which == "Newmark":
        for i, nm in want.items():
            if nm not in inp:
                R.unknown("%s: coefficient %s" % (key, nm))
                continue
            v = resolve(at[i])
            c = cmpv(v, inp[nm])
            if c == "eq":
                R.held("%s: %s of the scheme is used as %s" % (key, nm, nm))
            elif c == "ne":
                R.violation("%s %s" % (key, nm), loc(f), "%s in the combination is %s" % (nm, show(v)))
    elif "theta" in inp:
        v = resolve(at[4])
        c = cmpv(v, inp["theta"] * DT)
        if c == "eq":
            R.held("%s: enlarged step is theta * dt" % key)
        elif c == "ne":
            R.violation(key + " theta", loc(f), "the enlarged step is %s" % show(v))


def combos(P, R):
    for cls in state_classes(P):
        for op in ("Newmark", "Wilson", "MakeStationary"):
            for f in methods(P, cls, op):
                try:
                    combo(P, R, cls, op, f)
                except Limit as x:
                    R.unknown("%s::%s: %s" % (short(cls), op, x))
    R.floor("combinations", 6)


def combo(P, R, cls, op, f):
    nm = short(cls).replace("Eigen::Matrix<double, 3, 1>", "vec").replace("Eigen::Matrix<double, 6, 1>", "vec6")
    key = "%s::%s" % (nm, op)
    X = OpRun(P, cls, f)
    if X.st is None or X.rcls is None:
        R.unknown(key)
        return
    par = {p["n"]: X.I.num(X.I.read(State(), (("P", p["n"]),), "double")) for p in f["params"]
           if tinfo(p["t"].replace("const ", "").rstrip("& "))[0] == "flt"}
    need = {"Newmark": ("dt", "gamma", "beta"), "Wilson": ("tau", "dt"), "MakeStationary": ("dt",)}[op]
    flt = [p["n"] for p in f["params"] if tinfo(p["t"].replace("const ", "").rstrip("& "))[0] == "flt"]
    if len(flt) != len(need):
        R.unknown("%s: parameters" % key)
        return
    v = [par[n] for n in flt]
    R.count("combinations")
    H = C(Fraction(1, 2))
    for rel, ty, lab, ixs in X.leaves():
        X.bind(ATHIS, rel, ixs)
        got = comps(X.new(rel, ty))
        isacc = any(x == (".", "acc") for x in rel)
        isquat = tinfo(ty)[0] == "quat"
        # the leaf of the accelerations that drives this one
        arel = []
        done = False
        for x in rel:
            if not done and x == (".", "vel"):
                arel.append((".", "acc"))
                done = True
            else:
                arel.append(x)
        linear = True
        if not isacc and arel[-1] in ((".", "pos"), (".", "quat")):
            arel, part = arel[:-1], arel[-1][1]
            aty = "Eigen::Matrix<double, 6, 1>"
        else:
            part, aty = None, ty
        arel = tuple(arel)
        a0 = comps(X.old(ATHIS, arel, aty))
        a1 = comps(X.old(X.rhs[0], arel, aty)) if X.rhs else [ZERO] * len(a0)
        if part == "pos":
            a0, a1 = a0[:3], a1[:3]
        old = comps(X.old(ATHIS, rel, ty))
        if op == "Newmark":
            dt, ga, be = v
            acc = [(ONE - ga) * x + ga * y for x, y in zip(a0, a1)]
            inc = [dt * ((H - be) * x + be * y) for x, y in zip(a0, a1)]
        elif op == "Wilson":
            tau, dt = v
            fr = tau * pinv(dt)
            acc = [(ONE - H * fr) * x + H * fr * y for x, y in zip(a0, a1)]
            t3 = C(Fraction(1, 3)) * fr
            inc = [H * tau * ((ONE - t3) * x + t3 * y) for x, y in zip(a0, a1)]
        else:
            dt = v[0]
            acc = [ZERO] * len(a0)
            inc = [H * dt * x for x in a0]
            old = [ZERO] * len(old)
        if isquat and "[i]" in lab:
            continue        # delegated to the single-object class, decided there
        if isquat:
            # zero accelerations must not change the rate of the orientation
            def z(at):
                if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple and contains(at, lambda t: t == (".", "acc")) \
                        and not contains(at, lambda t: t in ("call", "ctor", "quat")):
                    return ZERO
                return None
            g0 = [subst(g, z) for g in got]
            res = [cmpv(g, o) for g, o in zip(g0, old)]
            R.count("leaves")
            if "ne" in res:
                i = res.index("ne")
                R.violation("%s %s at rest" % (key, lab), loc(f), "with zero accelerations component %s of the orientation rate becomes %s instead of %s"
                            % ("xyzw"[i], show(g0[i])[:120], show(old[i])))
            elif "?" in res:
                R.unknown("%s: %s" % (key, lab))
            else:
                R.held("%s: %s at rest" % (key, lab))
            continue
        want = acc if isacc else [o + i for o, i in zip(old, inc)]
        res = [cmpv(g, w) if isinstance(g, Poly) else "?" for g, w in zip(got, want)] if len(got) == len(want) else ["?"]
        R.count("leaves")
        if "ne" in res:
            i = res.index("ne")
            R.violation("%s %s" % (key, lab), loc(f), "component %d of %s becomes %s instead of %s" % (i, lab, show(got[i])[:200], show(want[i])[:200]))
        elif "?" in res:
            R.unknown("%s: %s" % (key, lab))
        else:
            R.held("%s: %s" % (key, lab))
