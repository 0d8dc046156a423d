"""Abstract execution of the time integrators' Step over the vector space of states.

A whole system state is one scalar symbol, a state derivative likewise: the
algebra on them (operator+ - * Mix, assignments) is linear and is decided
component-wise by another check (C07).  Update(t, i) makes r[i] the state that is
evaluated, CalcStateDeriv(i) stores f(evaluated state, evaluated times) in rd[i].
Running Step in that domain yields, for every scheme, the closed form of the new
state as a polynomial in dt over the f(.) stages, i.e. its Butcher tableau.
"""
from absint import *
from poly import _atoms

DT = Poly.atom(("v", "dt"))
R0 = Poly.atom(("v", "r0"))
T0 = Poly.atom(("v", "t0"))
TL0 = Poly.atom(("v", "tl0"))
THIS = (("T", "this"),)
CUR = (("Z", "cur"),)


def sname(p):
    return Poly.atom(("v", p))


class SchemeInterp(Interp):
    def __init__(self, P, cls):
        super().__init__(P, budget=200000, max_unroll=8)
        self.cls = cls
        self.dyn[THIS] = cls
        self.updates = []
        self.stages = []
        self.problems = []

    # states are scalars in this domain
    def lin(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Agg) and not v.v[1]:
            return Poly.atom(("v", v.v[0]))
        if isinstance(v, IteV):
            return ite(v.v[0], self.lin(v.v[1]), self.lin(v.v[2]))
        return Poly.atom(("v", ("opaque", v)))

    def is_state(self, ty):
        return "MoorDynState" in (ty or "") and "*" not in ty

    def sym(self, term, ty):
        if type(ty) is str and self.is_state(ty) and tinfo(ty)[0] == "cls":
            return Poly.atom(("v", term))
        if type(ty) is tuple and ty[0] == "cls" and self.is_state(ty[1]):
            return Poly.atom(("v", term))
        return super().sym(term, ty)

    def default(self, ty, v=None):
        if self.is_state(ty) and tinfo(ty)[0] == "cls":
            return ZERO
        return super().default(ty, v)

    def do_call(self, e, st, fr, want_place=False):
        qn = e.get("qn", "")
        n = e.get("n")
        cls = e.get("cls") or ""
        if e.get("in") and e.get("o") is not None:
            ot = e["o"].get("t") or ""
            if cls.endswith(("MoorDynState", "DMoorDynStateDt")):
                return self.state_op(e, st, fr, n)
            if n == "Update" and len(e["a"]) == 2 and "Scheme" in cls:
                a = [self.num(x) for x in self.argvals(e, st, fr)]
                th = fr_this(fr)
                r = self.lin(self.read(st, th + ((".", "r"), ("[", a[1])), "moordyn::MoorDynState"))
                t = self.num(self.read(st, th + ((".", "t"),), "double"))
                tl = a[0] + self.num(self.read(st, th + ((".", "t_local"),), "double"))
                self.write(st, CUR, Agg(("cur",), (((".", "r"), r), ((".", "t"), t), ((".", "tl"), tl))))
                for nm, v in (("r", r), ("t", t), ("tl", tl)):
                    self.write(st, CUR + ((".", nm),), v, "double")
                st.ev = st.ev + [("update", r, t, tl, e.get("l"), fr.fn["qn"])]
                return UNDEF
            if n == "CalcStateDeriv" and len(e["a"]) == 1 and "Scheme" in cls:
                i = self.num(self.ev(e["a"][0], st, fr))
                th = fr_this(fr)
                r, t, tl = (self.num(self.read(st, CUR + ((".", x),), "double")) for x in ("r", "t", "tl"))
                at = ("f", r, t, tl)
                self.write(st, th + ((".", "rd"), ("[", i)), Poly.atom(at), "moordyn::DMoorDynStateDt")
                st.ev = st.ev + [("deriv", r, t, tl, e.get("l"), fr.fn["qn"])]
                return UNDEF
            if n == "shift" and not e["a"] and "Scheme" in cls:
                # history shift, decided separately: rd[k+1] := rd[k]
                th = fr_this(fr)
                k = len(self.hist)
                vals = [self.read(st, th + ((".", "rd"), ("[", C(j))), "moordyn::DMoorDynStateDt") for j in range(k)]
                for j in range(1, k):
                    self.write(st, th + ((".", "rd"), ("[", C(j))), vals[j - 1], "moordyn::DMoorDynStateDt")
                st.ev = st.ev + [("shift", e.get("l"))]
                return UNDEF
        return super().do_call(e, st, fr, want_place)

    hist = range(5)

    def state_op(self, e, st, fr, n):
        args = [self.ev(a, st, fr) for a in e["a"]]
        o = self.lin(self.ev(e["o"], st, fr)) if e["o"]["k"] != "this" else None
        if n == "operator+":
            return o + self.lin(args[0])
        if n == "operator-":
            return o - self.lin(args[0])
        if n == "operator*":
            return o * self.num(args[0])
        if n == "operator=":
            p = self.lv(e["o"], st, fr)
            v = self.lin(args[0])
            if p is not None:
                self.wrplace(st, p, v)
            return v
        if n == "Mix":
            p = self.lv(e["o"], st, fr)
            f = self.num(args[1])
            v = o * (ONE - f) + self.lin(args[0]) * f
            if p is not None:
                self.wrplace(st, p, v)
            return UNDEF
        if n in ("Newmark", "Wilson"):
            x = Poly.atom((n, o, self.lin(args[0])) + tuple(self.num(a) for a in args[1:]))
            return x
        if n == "MakeStationary":
            p = self.lv(e["o"], st, fr)
            if p is not None:
                self.wrplace(st, p, Poly.atom(("stat", o)))
            return Poly.atom(("v", ("err", o)))
        return Poly.atom(("v", ("stateop", n, o, tuple(args))))


def schemes(P):
    """concrete integrator classes: those derived from TimeScheme that are constructed somewhere"""
    made = set()
    for f in P.funcs.values():
        for n in model.walk(f["body"]):
            if n["k"] == "new":
                made.add(n.get("at"))
            elif n["k"] == "decl":
                for v in n["v"]:
                    made.add(v["t"])
    out = []
    for c in P.classes.values():
        if c["tn"] in made and "moordyn::TimeScheme" in P.bases(c["tn"]) and c["tn"] not in out:
            out.append(c["tn"])
    return sorted(out)


def step_fn(P, cls):
    for c in P.bases(cls):
        for f in P.by_name.get(c + "::Step", ()):
            return f
    return None


def run_step(P, cls, extra=None):
    f = step_fn(P, cls)
    I = SchemeInterp(P, cls)
    st = State()
    I.write(st, THIS + ((".", "t"),), T0, "double")
    I.write(st, THIS + ((".", "t_local"),), TL0, "double")
    I.write(st, THIS + ((".", "r"), ("[", ZERO)), R0, "moordyn::MoorDynState")
    for j in range(5):
        I.write(st, THIS + ((".", "rd"), ("[", C(j))), Poly.atom(("old", j)), "moordyn::DMoorDynStateDt")
    for k, v in (extra or {}).items():
        I.write(st, THIS + ((".", k),), v, "unsigned int")
    s, _ = I.call_entry(f, this=THIS, args={f["params"][0]["n"]: DT}, st=st)
    if s is None:
        raise Limit("Step never returns")
    g = lambda n, ty="double": I.num(I.read(s, THIS + ((".", n),), ty))
    res = {"f": f, "I": I, "st": s, "t": g("t"), "tl": g("t_local"),
           "r": I.lin(I.read(s, THIS + ((".", "r"), ("[", ZERO)), "moordyn::MoorDynState")),
           "dt": I.num(I.read(s, (("P", f["params"][0]["n"]),), "double")),
           "cur": tuple(I.num(I.read(s, CUR + ((".", x),), "double")) for x in ("r", "t", "tl"))}
    return res


DERIV = ("f", "old", "Newmark", "Wilson", "stat")


def is_deriv_atom(at):
    if type(at) is not tuple or not at:
        return False
    if at[0] in DERIV:
        return True
    if at[0] == "v" and type(at[1]) is tuple and at[1]:
        s = repr(at[1])
        return at[1][0] in ("in", "mu", "loopout", "sel") and "'rd'" in s
    return False


def unit(p):
    """value when every state derivative is the unit derivative"""
    def f(at):
        return ONE if is_deriv_atom(at) else None
    # top-level replacement only (f atoms swallow their arguments)
    for _ in range(12):
        q = subst_top(p, f)
        if q == p:
            return q
        p = q
    return p


def subst_top(p, f):
    out = ZERO
    for m, c in p.t.items():
        term = C(c)
        for a, e in m:
            at = _atoms[a]
            r = f(at)
            if r is None and at[0] == "ite":
                x, y = subst_top(at[2], f), subst_top(at[3], f)
                r = x if x == y else Poly.atom(("ite", at[1], x, y)) if (x, y) != (at[2], at[3]) else None
            b = r if r is not None else Poly({((a, 1),): Fraction(1)})
            if e < 0:
                term = term * Poly({((a, e),): Fraction(1)})
            else:
                for _ in range(e):
                    term = term * b
        out = out + term
    return out
