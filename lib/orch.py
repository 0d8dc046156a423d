"""Abstract execution of the top-level orchestration (class MoorDyn): every method
of that class and every free helper is inlined, calls on the modelled objects
(bodies, rods, points, lines, integrator, waves...) are recorded as events."""
from absint import *

OBJ = ("Body", "Rod", "Point", "Line", "Waves", "Seafloor", "TimeScheme", "Log", "LogUser", "IO")


class Orch(Interp):
    top = "moordyn::MoorDyn"

    def __init__(self, P, **kw):
        kw.setdefault("budget", 400000)
        super().__init__(P, **kw)
        self.loops_seen = []
        self.inline = self.want
        self.extra_inline = ()
        self.keep_out = ()
        self.watch = ()      # pointer terms (as in PtrT) whose stores become events

    def want(self, f):
        c = f.get("cls") or ""
        if f["qn"] in self.keep_out or f["qn"].endswith("create_time_scheme"):
            return False
        if not c or c == self.top or f["qn"] in self.extra_inline:
            return not f.get("file", "").endswith(("Log.cpp", "Log.hpp"))
        return False

    def assign(self, st, p, v, e, fr):
        if p is not None and len(p.path) > 1 and p.path[0][0] == "D" and p.path[0][1] in self.watch:
            st.ev = st.ev + [("store", p.path, v, e.get("l"), fr.fn["qn"])]
        super().assign(st, p, v, e, fr)

    def on_loop(self, info):
        self.loops_seen.append(info)
