"""Abstract execution of code that iterates over lists of objects: which method is called on
which element, under which condition (per type of the object), with which arguments, in which order."""
from absint import *
from util import *
from expect import Ref, Missing
from poly import _atoms

OBJCLS = ("moordyn::Body", "moordyn::Rod", "moordyn::Point", "moordyn::Line", "moordyn::Waves", "moordyn::Seafloor")


class Drive(Interp):
    """calls on the modelled objects are events that carry the path condition"""

    def __init__(self, P, cls=None, inline=None, **kw):
        kw.setdefault("budget", 300000)
        super().__init__(P, **kw)
        self.inline = inline or self.want
        if cls:
            self.dyn[(("T", "this"),)] = cls

    def want(self, f):
        c = f.get("cls") or ""
        if f.get("file", "").endswith(("Log.cpp", "Log.hpp")):
            return False
        return c not in OBJCLS and not c.endswith("Waves")

    def opaque_call(self, e, st, fr):
        n = len(st.ev)
        r = super().opaque_call(e, st, fr)
        if len(st.ev) > n and st.ev[-1][0] == "call":
            st.ev = st.ev[:-1] + [st.ev[-1] + (st.pc,)]
        return r

    def wrplace(self, st, p, v):
        if p is not None and p.path[0][0] != "V":
            st.ev = st.ev + [("set", p.path, v, None, st.pc)]
        super().wrplace(st, p, v)


class Call:
    def __init__(self, qn, obj, args, line, pc, loops, pos):
        self.qn, self.obj, self.args, self.line, self.pc, self.loops, self.pos = qn, obj, args, line, pc, loops, pos
        self.name = qn.rpartition("::")[2]


def all_calls(ev):
    out = []
    for i, (e, pre) in enumerate(flat_events(ev)):
        if e[0] == "call" and len(e) > 6:
            pc = e[6] + tuple(c for k, c, *_ in pre if k == "if")
            out.append(Call(e[1], e[2], e[3], e[4], pc, [x for x in pre if x[0] == "loop"], i))
    return out


def elem(obj):
    """(path of the list, index) when obj is the pointer stored in an element of a list"""
    t = None
    if isinstance(obj, PtrT):
        t = obj.v[0]
    elif isinstance(obj, Ptr) and len(obj.v[0]) == 1 and obj.v[0][0][0] == "D":
        t = obj.v[0][0][1]
    if type(t) is tuple and t and t[0] == "in" and t[1][-1][0] == "[":
        return t[1][:-1], t[1][-1][1]
    return None


def under(pc, typath, val):
    """truth of a path condition when the field at typath has a value: True/False/None, remaining conditions"""
    def f(at):
        if type(at) is tuple and len(at) == 2 and at[0] in ("v", "int") and at[1] == ("in", typath):
            return C(val)
        if at == ("in", typath):
            return C(val)
        return None
    rest = []
    for c in pc:
        g = fsubst(c, f, {})
        if g.k == "N":
            return False, []
        if g.k != "T":
            rest.append(g)
    return True, rest
