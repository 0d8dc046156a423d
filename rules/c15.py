"""C15: the options of the input file take effect, each on its own, and the others keep their documented defaults."""
from reader import *
from util import *
from fractions import Fraction
from c14 import Judge, say
from c09 import guarded, loc

Q = Fraction


def entry(P):
    fs = [f for f in P.funcs.values() if f["qn"] == MD + "::MoorDyn" and f.get("body") and [p["t"] for p in f["params"]][:1] == ["const char *"]]
    return fs[0] if fs else None


# fields: (path, documented default or None, names)
NUMBERS = ((("dtM0",), None, ("dtM", "DT")), (("cfl",), Q(1, 2), ("CFL", "cfl")), (("env", "g"), (Q(980665, 100000), Q(981, 100)), ("g", "gravity")),
           (("env", "rho_w"), 1025, ("rho", "Rho", "WtrDnsty")), (("env", "WtrDpth"), 0, ("WtrDpth",)), (("env", "kb"), 3000000, ("kBot", "kbot", "kb")),
           (("env", "cb"), 300000, ("cBot", "cbot", "cb")), (("ICdt",), 1, ("dtIC", "ICdt")), (("ICTmax",), 120, ("TmaxIC", "ICTmax")),
           (("ICDfac",), 5, ("CdScaleIC", "ICDfac")), (("ICthresh",), Q(1, 1000), ("threshIC", "ICthresh")), (("WaveKinTemp",), 0, ("WaveKin",)),
           (("env", "waterKinOptions", "dtWave"), Q(1, 4), ("dtWave",)), (("env", "waterKinOptions", "currentMode"), 0, ("Currents",)),
           (("env", "WriteUnits"), 1, ("WriteUnits",)), (("env", "writeLog"), 0, ("writeLog",)), (("env", "FrictionCoefficient"), 0, ("FrictionCoefficient",)),
           (("env", "FricDamp"), 200, ("FricDamp",)), (("env", "StatDynFricScale"), 1, ("StatDynFricScale",)), (("dtOut",), 0, ("dtOut",)))
SWITCHES = ((("env", "waterKinOptions", "unifyCurrentGrid"), True, ("UnifyCurrentGrid",)), (("ICgenDynamic",), False, ("ICgenDynamic",)))
WHOLE = ("WaveKin", "Currents", "WriteUnits", "writeLog")
ALL = NUMBERS + SWITCHES

# name: (class, {member: value})
SCHEMES = {"Euler": ("EulerScheme", {}), "LEuler": ("LocalEulerScheme", {}), "Heun": ("HeunScheme", {}), "RK2": ("RK2Scheme", {}), "RK4": ("RK4Scheme", {}),
           "AB2": ("ABScheme<2, false>", {}), "AB3": ("ABScheme<3, false>", {}), "AB4": ("ABScheme<4, false>", {}),
           "LAB2": ("ABScheme<2, true>", {}), "LAB3": ("ABScheme<3, true>", {}), "LAB4": ("ABScheme<4, true>", {}),
           "BEuler7": ("ImplicitEulerScheme", {"_iters": 7, "_dt_factor": 1}), "BEuler12": ("ImplicitEulerScheme", {"_iters": 12, "_dt_factor": 1}),
           "Midpoint5": ("ImplicitEulerScheme", {"_iters": 5, "_dt_factor": Q(1, 2)}), "Anderson9": ("AndersonEulerScheme", {"_iters": 9, "_dt_factor": Q(1, 2)}),
           "ACA6": ("ImplicitNewmarkScheme", {"_iters": 6, "_gamma": Q(1, 2), "_beta": Q(1, 4)}), "Wilson11": ("ImplicitWilsonScheme", {"_iters": 11, "_theta": Q(137, 100)})}


class Opts:
    def __init__(self, P, R):
        self.P, self.R, self.f = P, R, entry(P)
        self.J = Judge(P, R)
        self.base = None

    def read(self, what, rows):
        try:
            F = File(self.P, self.f, {"OPTIONS": rows} if rows else {})
        except (Terminated, NotNumber):
            F = None
        if F is None or F.st is None:
            self.R.unknown("%s: the file could not be followed" % what)
            return None
        return F

    def same(self, what, got, e):
        if isinstance(e, bool):
            r = {TRUE: True, FALSE: False}.get(got)
            if r is None and isinstance(got, Poly) and got.is_const():
                r = got.cval() != 0
            if r is None:
                self.R.unknown(what)
            elif r == e:
                self.R.held(what)
            else:
                self.R.violation(what, loc(self.f), "%s: got %s, expected %s" % (what, r, e))
            return
        self.J.same(what, got, e)

    def others(self, what, F, but):
        for path, _, names in ALL:
            if path in but:
                continue
            a, b = F.member(*path), self.base.member(*path)
            if a is None or b is None:
                continue
            if a == b:
                self.R.held("%s leaves %s" % (what, names[0]))
            elif (isinstance(a, Poly) and isinstance(b, Poly) and cmpv(a, b) == "ne") or (a in (TRUE, FALSE) and b in (TRUE, FALSE)):
                self.R.violation("%s changes %s" % (what, names[0]), loc(self.f), "%s: %s becomes %s" % (what, names[0], say(a)))
            else:
                self.R.unknown("%s leaves %s" % (what, names[0]))


def run(P, R):
    X = Opts(P, R)
    if X.f is None:
        return R.unknown("no constructor of the system found")
    X.J.f = X.f
    defaults(X)
    if X.base is None:
        return
    single(X)
    several(X)
    schemes(X)


@guarded
def defaults(X):
    X.base = F = X.read("no options", [])
    if F is None:
        return
    for path, d, names in NUMBERS:
        if d is not None:
            X.same("default of %s" % names[0], F.member(*path), [C(x) for x in d] if type(d) is tuple else C(d))
    for path, d, names in SWITCHES:
        X.same("default of %s" % names[0], F.member(*path), d)


@guarded
def single(X, _=None):
    for path, d, names in NUMBERS:
        for n in names:
            F = X.read("option %s" % n, [({1: n}, 2)])
            if F is None:
                continue
            X.same("option %s" % n, F.member(*path), F.I.whole(70, 0) if names[0] in WHOLE else F.I.col(70, 0))
            X.others("option %s" % n, F, [path])
    for path, d, names in SWITCHES:
        for n in names:
            for w, v in (("1", True), ("0", False)):
                F = X.read("option %s = %s" % (n, w), [({0: w, 1: n}, 2)])
                if F is not None:
                    X.same("option %s = %s" % (n, w), F.member(*path), v)
                    X.others("option %s = %s" % (n, w), F, [path])
    F = X.read("option SeafloorFile", [({1: "SeafloorFile"}, 2)])
    if F is not None:
        m = [v for e in X.P.enums.values() for c in e["e"] if c["n"] == "SEAFLOOR_3D" for v in [c["v"]]]
        if m:
            X.same("option SeafloorFile: mode", F.member("env", "SeafloorMode"), C(m[0]))
        ok = [x for x, _ in flat_events(F.st.ev) if x[0] == "call" and x[1] == "moordyn::Seafloor::setup"]
        if len(ok) == 1 and any(a == F.I.text(70, 0) for a in ok[0][3]):
            X.R.held("option SeafloorFile: the file is read")
        elif not ok and not any(vague(x) for x in (F.member("seafloor"),)):
            X.R.violation("option SeafloorFile", loc(X.f), "option SeafloorFile: the file is not read")
        else:
            X.R.unknown("option SeafloorFile: the file is read")
        X.others("option SeafloorFile", F, [])


@guarded
def several(X, _=None):
    """rows before, after and between others; unknown names and rows without a name"""
    ks = [(p, n[0]) for p, _, n in NUMBERS]
    for i in range(len(ks)):
        tr = [ks[i], ks[(i + 3) % len(ks)], ks[(i + 7) % len(ks)]]
        what = "options %s" % ", ".join(n for _, n in tr)
        rows = [({1: tr[0][1]}, 2), ({1: "unheard"}, 2), ({1: tr[1][1]}, 3), ({}, 1), ({1: tr[2][1]}, 2)]
        F = X.read(what, rows)
        if F is None:
            continue
        for (p, n), r in zip(tr, (70, 72, 74)):
            X.same("%s: %s" % (what, n), F.member(*p), F.I.whole(r, 0) if n in WHOLE else F.I.col(r, 0))
        X.others(what, F, [p for p, _ in tr])


@guarded
def schemes(X, _=None):
    for name in [None] + list(SCHEMES):
        for w in ([None] if name is None else [name, name.lower(), name.upper()]):
            what = "option tScheme = %s" % w if w else "no tScheme"
            F = X.read(what, [({0: w, 1: "tScheme"}, 2)] if w else []) if w else X.base
            if F is None:
                continue
            cls, mem = SCHEMES[name or "RK2"]
            p = F.member("_t_integrator")
            k = F.I.dyn.get(p.v[0]) if isinstance(p, Ptr) else None
            if k is None:
                X.R.unknown("%s: scheme" % what)
                continue
            k = k.replace("moordyn::", "")
            known = {c for c, _ in SCHEMES.values()}
            if k == cls:
                X.R.held("%s: scheme" % what)
            elif k in known:
                X.R.violation("%s: scheme" % what.lower(), loc(X.f), "%s: the integrator is %s, expected %s" % (what, k, cls))
                continue
            else:
                X.R.unknown("%s: scheme" % what)
                continue
            for m, v in mem.items():
                own = [x for _, x in X.P.all_fields("moordyn::" + k) if x["n"] == m]
                if not own:
                    X.R.unknown("%s: %s" % (what, m))
                    continue
                for o in own[:1]:
                    X.same("%s: %s" % (what, m), F.I.read(F.st, p.v[0] + ((".", m),), o["t"]), C(v))
            if w:
                X.others(what, F, [])
