"""C05: integrating over dt moves the clock by exactly dt."""
from model import *
from schemes import *
from util import *
from orch import Orch

CLOCK = (("Z", "clock"),)
CLK0 = Poly.atom(("v", "clock0"))


class Ledger(Orch):
    """MoorDyn-level run in which the integrator is reduced to its clock"""

    def do_call(self, e, st, fr, want_place=False):
        cls = e.get("cls") or ""
        if e.get("in") and e.get("o") is not None and "Scheme" in cls:
            n = e.get("n")
            if n == "Step" and len(e["a"]) == 1:
                d = self.num(self.ev(e["a"][0], st, fr))
                c = self.num(self.read(st, CLOCK, "double"))
                self.write(st, CLOCK, c + d, "double")
                st.ev = st.ev + [("step", d, e.get("l"), fr.fn["qn"])]
                return UNDEF
            if n == "GetTime" and not e["a"]:
                return self.read(st, CLOCK, "double")
            if n == "SetTime" and len(e["a"]) == 1:
                v = self.num(self.ev(e["a"][0], st, fr))
                self.write(st, CLOCK, v, "double")
                st.ev = st.ev + [("settime", v, e.get("l"), fr.fn["qn"])]
                return UNDEF
        return super().do_call(e, st, fr, want_place)


def ledger(P, f):
    I = Ledger(P)
    I.keep_out = ("moordyn::MoorDyn::detachLines",)
    st = State()
    I.write(st, CLOCK, CLK0, "double")
    s, v = I.call_entry(f, this=THIS, st=st)
    return I, s, v


def fields(P, cls):
    return {x["n"] for _, x in P.all_fields(cls)}


def run(P, R):
    R.rule("Abstract execution of every integrator's Step over the vector space of states (a state is one symbol, a "
           "derivative one symbol, the algebra on them linear): the clock after Step must be, as a normal form, the "
           "clock before plus dt, the step passed in must be unchanged, and the objects must be left at the new state "
           "and the new time.")
    R.rule("In every loop that repeats Step: the duration handed to Step and the duration subtracted from what "
           "remains are the same value, the loop goes on exactly while something remains, no step exceeds what "
           "remains, and in the public step the initial remainder is the requested interval.")
    R.assume.append("real arithmetic: rounding of t += dt is not modelled")
    R.assume.append("the requested interval is positive")
    for cls in schemes(P):
        f = step_fn(P, cls)
        if f is None:
            R.unknown("%s: no Step" % cls)
            continue
        R.count("integrators")
        if "t" not in fields(P, cls):
            R.unknown("%s: clock field not found" % cls)
            continue
        try:
            r = run_step(P, cls)
        except Limit as x:
            R.unknown("%s: %s" % (cls, x))
            continue
        key = cls + "::Step"
        c = cmpv(r["t"], T0 + DT)
        if c == "eq":
            R.held("%s: time advances by dt" % key)
        elif c == "ne":
            R.violation(key + " clock", loc(f), "after Step(dt) the clock reads %s instead of t0 + dt" % show(r["t"]))
        else:
            R.unknown("%s: clock %s" % (key, show(r["t"])))
        c = cmpv(r["dt"], DT)
        if c == "ne":
            R.violation(key + " argument", loc(f), "Step changes the step it was given to %s" % show(r["dt"]))
        elif c == "eq":
            R.held("%s: step argument unchanged" % key)
        cr, ct, ctl = r["cur"]
        c = cmpv(ct, r["t"], ("fresh",))
        if c == "eq":
            R.held("%s: objects are evaluated last at the final time" % key)
        elif c == "ne" and not vague(ct) and not vague(r["t"]):
            R.violation(key + " final time", loc(f), "the objects are left at time %s while the clock reads %s"
                        % (show(ct), show(r["t"])))
        else:
            R.unknown("%s: final time" % key)
        if cr == r["r"]:
            R.held("%s: objects are left at the final state" % key)
        elif cmpv(cr, r["r"]) == "ne":
            R.violation(key + " final state", loc(f), "the state given last to the objects is %s, the stored state is %s"
                        % (show(cr)[:300], show(r["r"])[:300]))
        else:
            R.unknown("%s: final state" % key)
    R.floor("integrators", 5)

    # ---- loops over Step
    drivers = []
    for f in P.funcs.values():
        if f.get("cls") != "moordyn::MoorDyn":
            continue
        for n in walk(f["body"]):
            if n["k"] == "call" and n.get("n") == "Step" and "Scheme" in (n.get("cls") or ""):
                drivers.append(f)
                break
    drivers.sort(key=lambda f: f["qn"])
    seen = set()
    for f in drivers:
        if f["qn"] in seen:
            continue
        seen.add(f["qn"])
        R.count("functions that drive Step")
        try:
            I, s, v = ledger(P, f)
        except Limit as x:
            R.unknown("%s: %s" % (f["qn"], x))
            continue
        loops = {}
        for info in I.loops_seen:
            if CLOCK in info["res"] and any(e[0] == "step" for e in info["ev"]):
                loops[info["lid"]] = info
        if not loops:
            R.unknown("%s: no loop around Step" % f["qn"])
        for lid, info in sorted(loops.items(), key=repr):
            decide_loop(R, I, f, info, s)
    if "moordyn::MoorDyn::Step" not in seen:
        R.unknown("public step does not drive the integrator directly")
    # ---- clock after initialisation
    for f in P.fn("moordyn::MoorDyn::Init"):
        try:
            I, s, v = ledger(P, f)
        except Limit as x:
            R.unknown("Init: %s" % x)
            continue
        ev = list(flat_events(s.ev)) if s is not None else []
        steps = [i for i, (e, _) in enumerate(ev) if e[0] == "step"]
        sets = [(i, e) for i, (e, pre) in enumerate(ev) if e[0] == "settime" and not any(p[0] == "if" for p in pre)]
        if not steps:
            R.unknown("Init: no relaxation steps found")
        elif sets and sets[-1][0] > steps[-1] and sets[-1][1][1] == ZERO:
            R.held("Init: the clock is set to 0 after the relaxation steps")
        elif not vague(tuple(e[1] for e, _ in ev if e[0] == "settime")):
            R.violation("moordyn::MoorDyn::Init clock", loc(f), "relaxation steps advance the clock and it is not reset to 0 afterwards")


def decide_loop(R, I, f, info, s):
    where = "%s:%s" % (f.get("file"), info["s"].get("l"))
    key = f["qn"] + " substeps"
    steps = [e for e in info["ev"] if e[0] == "step"]
    if len(steps) != 1:
        R.unknown("%s: %d calls of Step per iteration" % (key, len(steps)))
        return
    R.count("loops over Step")
    public = f["qn"] == "moordyn::MoorDyn::Step"
    # the value passed, in terms of the loop variables
    c0, c1, cm = info["res"][CLOCK]
    d = c1 - cm
    want = None
    if public:
        want = I.num(I.read(info["pre"], (("P", f["params"][-1]["n"]),), "double"))
    # closed form
    if not vague(d) and not info["irregular"]:
        tot = d * info["n"]
        if want is not None and cmpv(tot, want) == "eq":
            R.held("%s: total is the requested interval" % key)
            return
    cond = info["cond"]
    if cond is None:
        R.unknown("%s: loop condition not recognised" % key)
        return
    rems = []
    for p, (i0, v, m) in info["res"].items():
        if p == CLOCK or not isinstance(m, Poly) or not isinstance(v, Poly):
            continue
        if contains(cond, lambda t, a=("mu", info["lid"], p): t == a):
            rems.append((p, i0, v, m))
    if len(rems) != 1:
        R.unknown("%s: %d variables control the loop" % (key, len(rems)))
        return
    p, i0, v, m = rems[0]
    name = showpath(p)
    if cond.k in ("gt", "ge") and _scale(cond.v, m):
        sgn, lim = 1, ZERO
        rem = m
    else:
        # counting up: cond is  lim - done > 0
        if cond.k in ("gt", "ge") and lead_coef(cond.v, m) == -1 and not contains(cond.v + m, lambda t: t == ("mu", info["lid"], p)):
            lim = cond.v + m
            rem = lim - m
            sgn = -1
        else:
            if cond.k == "gt" and lead_coef(cond.v, m) == 1 and not contains(cond.v - m, lambda t: t == ("mu", info["lid"], p)):
                extra = cond.v - m       # m > -extra
                if not vague(extra) and extra.is_const() and abs(extra.cval()) < Fraction(1, 10 ** 6):
                    R.unknown("%s: loop stops within a tolerance" % key)
                    return
                if not vague(extra):
                    R.violation(key + " condition", where, "the loop goes on while %s, so that some of the interval is left unintegrated (or overrun)" % show(cond))
                    return
            R.unknown("%s: loop condition %s" % (key, show(cond)))
            return
    if I.types.get(p) in ("int", "unsigned int", "unsigned long"):
        R.unknown("%s: counted loop" % key)
        return
    R.count("ledger obligations", 3)
    dv = (v - m).scale(-sgn)
    c = cmpv(dv, d, ("fresh",))
    if c == "eq":
        R.held("%s: %s changes by exactly the step integrated" % (key, name))
    elif c == "ne":
        R.violation(key + " ledger", where, "Step integrates %s but %s is reduced by %s" % (show(d), name, show(dv)))
        return
    else:
        R.unknown("%s: ledger" % key)
        return
    # no step exceeds what remains
    bad = None
    for cs, leaf in cases(d):
        if not consistent(cs + (cond,)):
            continue
        if not entails_ge0(rem - leaf, cs + (cond,)):
            bad = leaf
    if bad is None:
        R.held("%s: no step exceeds what remains" % key)
    elif vague(bad, ("fresh", "loopout", "call", "out", "undef")):
        R.unknown("%s: step size %s" % (key, show(bad)))
    else:
        R.violation(key + " overrun", where, "a step of %s can exceed the remaining %s" % (show(bad), name))
    if public:
        start = i0 if sgn == 1 else lim - i0
        c = cmpv(start, want)
        if c == "eq":
            R.held("%s: starts from the requested interval" % key)
        elif c == "ne":
            R.violation(key + " start", where, "the loop integrates %s instead of the requested %s" % (show(start), show(want)))
        # time handed back
        tp = (("P", f["params"][-2]["n"]),)
        if tp in info["res"]:
            t0, t1, tm = info["res"][tp]
            if t1 == c1 or (t1 - tm) == d:
                R.held("%s: the time handed back is the integrator's" % key)
            elif cmpv(t1, c1, ("fresh", "call", "out", "undef", "loopout")) == "ne":
                R.violation(key + " time", where, "the time handed back becomes %s while the clock reads %s" % (show(t1), show(c1)))


def _scale(p, m):
    return p == m


def lead_coef(p, m):
    (mono, _), = m.t.items()
    return p.t.get(mono, 0)
