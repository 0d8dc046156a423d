"""Abstract execution of one C entry point: the entry and file-local helpers are
inlined, calls of methods of the library's classes become events."""
from absint import *
from util import *
from orch import Orch
from exceptions import Escape, norm


class Api(Interp):
    def __init__(self, P, inline_methods=False, **kw):
        kw.setdefault("budget", 200000)
        super().__init__(P, **kw)
        self.inline = self.want
        self.inline_methods = inline_methods
        self.nullderef = []
        self.stores = ()

    def want(self, f):
        if f.get("file", "").endswith(("Log.cpp", "Log.hpp")):
            return False
        if f["qn"].endswith("create_time_scheme"):
            return False
        if not f.get("cls"):
            return True
        return self.inline_methods(f) if self.inline_methods else False

    def note_null(self, st, fr, node, what):
        self.nullderef.append((fr.fn["qn"], node.get("l") if node else None, what))

    def assign(self, st, p, v, e, fr):
        if p is not None and len(p.path) >= 1 and p.path[0][0] == "D":
            if p.path[0][1] == ("null",):
                self.note_null(st, fr, e, "store")
            else:
                st.ev = st.ev + [("store", p.path, v if p.sel is None else ("sel", p.sel, v), e.get("l"), fr.fn["qn"])]
        super().assign(st, p, v, e, fr)


class XFlow:
    """with exceptional flow: a throw continues in the handler that catches it; a call of a
    function that is not inlined may throw whatever escapes from it (one condition per type)"""
    inline_handlers = True

    def setup(self, E, call_throws=True):
        self.E = E
        self.call_throws = call_throws
        self.sites = []
        self.tries = {}

    def handlers(self, s, before, thrown, nt, fr, r):
        del self.throws[nt:]
        outs = []
        for th in thrown:
            t = norm(th[1] or "")
            x = th[5]
            for h in s["h"]:
                if self.E.caught_by(t, h):
                    y = x.copy()
                    y2 = self.exec(h["b"], y, fr)
                    if y2 is not None:
                        outs.append((y2, None))
                    break
            else:
                self.throws.append(th)
        if r is not None:
            outs.append((r, None))
        if not outs:
            return None
        y, _ = self.merge_exits(outs, before)
        return y

    def opaque_call(self, e, st, fr):
        if self.call_throws:
            for c in self.E.callees(e):
                for t in sorted(self.E.esc.get(c, ())):
                    key = (fr.fn["qn"], e.get("l"), self.P.funcs[c]["qn"], t)
                    a = f_atom(("throws",) + key)
                    if key not in self.tries:
                        self.tries[key] = 1
                        self.sites.append((len(self.sites), t, self.P.funcs[c]["qn"], e.get("l"), a, fr.fn, st.pc))
                    x = st.copy()
                    x.assume(a)
                    self.throws.append((x.pc, t, fr.fn, e, list(x.ev), x))
                    st.assume(f_not(a))
        return super().opaque_call(e, st, fr)


class XApi(XFlow, Api):
    def __init__(self, P, E, call_throws=True, **kw):
        super().__init__(P, **kw)
        self.setup(E, call_throws)


class XOrch(XFlow, Orch):
    """exceptions are raised once per try statement and type, when it is entered"""

    def __init__(self, P, E, **kw):
        super().__init__(P, **kw)
        self.setup(E, False)
        self.exits = None

    def run(self, f, fr, st):
        r = super().run(f, fr, st)
        if len(self.stack) == 0:
            self.exits = list(fr.exits)
        return r

    def s_try(self, s, st, fr):
        out = {}
        self.E.stmt(fr.fn, s["b"], out, None)
        forced = []
        for t in sorted(out):
            key = (fr.fn["qn"], s.get("l"), t)
            a = f_atom(("throws",) + key)
            if key not in self.tries:
                self.tries[key] = 1
                self.sites.append((len(self.sites), t, out[t][0], s.get("l"), a, fr.fn, st.pc))
            x = st.copy()
            x.assume(a)
            forced.append((x.pc, t, fr.fn, s, [], x))
            st.assume(f_not(a))
        nt = len(self.throws)
        before = st.copy()
        r = self.exec(s["b"], st, fr)
        thrown = self.throws[nt:] + forced
        return self.handlers(s, before, thrown, nt, fr, r) if thrown else r


def entries(P):
    """every non-static function with C linkage that the library defines, by name"""
    out = {}
    for fid, f in P.funcs.items():
        if f.get("externC") and not f.get("static"):
            out[f["qn"]] = f
    return out


def header_of(P, f):
    return f.get("file", "")
