"""Component-wise decision of the algebra on states and state derivatives."""
from leaves import *

THIS = (("T", "this"),)
RES = (("Z", "res"),)
CONTAINERS = ("moordyn::MoorDynState", "moordyn::DMoorDynStateDt")


def state_classes(P):
    out = []
    for c in P.classes.values():
        tn = c["tn"]
        if (tn.startswith(("moordyn::StateVar<", "moordyn::StateVarDeriv<")) or tn in CONTAINERS) and tn not in out:
            out.append(tn)
    return sorted(out)


def methods(P, cls, name):
    seen, out = set(), []
    for f in P.fn(cls + "::" + name):
        if f["fn"] not in seen and not f.get("defaulted"):
            seen.add(f["fn"])
            out.append(f)
    return out


class SizedInterp(Interp):
    """representation invariant of a state: the node velocities (accelerations) of a
    line are as many as its node positions (velocities)"""

    def read(self, st, path, ty):
        if path[-1:] == ((".", "#size"),) and len(path) > 2 and path[-2] in ((".", "vel"), (".", "acc")) \
                and path[0][0] in "TP":
            v = super().read(st, path, ty)
            if v == self.sym(("in", path), "unsigned long"):
                first = (".", "pos") if self.first == "pos" else (".", "vel")
                if path[0] == ("T", "this"):
                    return super().read(State(), path[:-2] + (first, path[-1]), ty)
                return super().read(State(), path[:-2] + (first, path[-1]), ty)
            return v
        return super().read(st, path, ty)


class OpRun:
    def __init__(self, P, cls, f):
        self.P, self.cls, self.f = P, cls, f
        self.I = I = SizedInterp(P, budget=300000)
        I.first = "vel" if "Deriv" in cls or "StateDt" in cls else "pos"
        I.dyn[THIS] = cls
        self.pre = st = State()
        self.st, self.ret = I.call_entry(f, this=THIS, st=st)
        rt = f["rt"].rstrip("& ")
        self.rcls = rt if rt in P.classes else None
        if f["n"] in ("operator=", "Mix", "MakeStationary"):
            self.rcls = cls
            self.base = THIS
        else:
            I.write(self.st, RES, self.ret, self.rcls)
            self.base = RES
        # other operand: the first reference parameter of class type
        self.rhs = None
        for p in f["params"]:
            t = p["t"].replace("const ", "").rstrip("& ")
            if t in P.classes:
                self.rhs = ((("P", p["n"]),), t)
                break

    def scalar(self, i):
        """i-th floating parameter"""
        ps = [p for p in self.f["params"] if tinfo(p["t"].replace("const ", "").rstrip("& "))[0] == "flt"]
        p = ps[i]
        # the value on entry
        return Poly.atom(("v", ("in", (("P", p["n"]),)))) if False else self.I.num(self.I.read(State(), (("P", p["n"]),), "double"))

    def leaves(self):
        return leaves(self.I, self.rcls)

    def bind(self, base, rel, ixs):
        """container sizes are taken from the left operand as it was on entry"""
        bind_indices(self.I, State(), base, rel, ixs)

    def old(self, base, rel, ty):
        return self.I.read(State(), base + rel, ty)

    def new(self, rel, ty):
        return self.I.read(self.st, self.base + rel, ty)

    def norm(self, p, same=False):
        """same: the operands hold as many objects as each other"""
        rhs = self.rhs[0] if self.rhs is not None and self.rhs[1] == self.cls else None

        def f(at):
            if type(at) is tuple and len(at) == 2 and at[0] == "v" and type(at[1]) is tuple and at[1][:1] == ("in",):
                path = at[1][1]
                if path[-1] == (".", "#size"):
                    p2 = path
                    if path[-2] in ((".", "vel"), (".", "acc")):
                        p2 = path[:-2] + ((".", self.I.first), path[-1])
                    if same and rhs is not None and p2[:len(rhs)] == rhs:
                        p2 = THIS + p2[len(rhs):]
                    if p2 != path:
                        a2 = ("v", ("in", p2))
                        mark_int(a2)
                        return Poly.atom(a2)
            return None
        return sub_any(p, f, {})

    def simp(self, g, ixs):
        """use that the indices of a leaf lie inside the containers"""
        if isinstance(g, Poly):
            for a, _ in ixs:
                n = self.I.bounds.get(aid(a))
                i = Poly.atom(a)
                g = assume(g, f_ge0(i, True))
                if n is not None:
                    g = assume(g, f_ge0(self.norm(n, True) - ONE - i, True))
        return g

    def size(self, rel):
        return self.norm(self.I.num(self.I.read(self.st, self.base + rel + ((".", "#size"),), "unsigned long")))

    def oldsize(self, base, rel):
        return self.I.num(self.I.read(State(), base + rel + ((".", "#size"),), "unsigned long"))


def comps(v):
    if isinstance(v, (Mat, Quat)):
        return list(v.e)
    return [v]
