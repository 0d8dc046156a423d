"""C02: absent handles and absent coupled kinematics are refused, not dereferenced."""
from model import *
from api import *
from orch import Orch
import re

HANDLE = re.compile(r"^(const )?__MoorDyn\w* \*$")


class NApi(Api):
    def derefpath(self, v, ty, node=None):
        if isinstance(v, Null):
            self.nullderef.append((None, (node or {}).get("l"), "dereference"))
        return super().derefpath(v, ty, node)

    def ptr_elem(self, v, i):
        if isinstance(v, Null):
            self.nullderef.append((None, None, "element access"))
        return super().ptr_elem(v, i)


class NOrch(Orch):
    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.nullderef = []
    derefpath = NApi.derefpath
    ptr_elem = NApi.ptr_elem


def error_value(v, rt):
    """'err' / 'ok' / '?' for the value an entry returns"""
    if isinstance(v, Null):
        return "err"
    if isinstance(v, Poly):
        if v.is_const():
            if rt.endswith("*"):
                return "err" if v.cval() == 0 else "ok"
            return "err" if v.cval() != 0 else "ok"
        return "?"
    if isinstance(v, (Ptr, PtrT)):
        return "ok"
    return "?"


def run(P, R):
    R.rule("For every C entry point and every handle parameter (and, for the entry points without a handle, the global "
           "instance), abstract execution with that handle null: no field access, method call or store through it may be "
           "reached, and the entry must return an error code (a null pointer where it returns a handle).")
    R.rule("With a positive number of coupled degrees of freedom and x, xd or f null, Init, Step and GetForces return an "
           "error before reading or writing through the pointer.")
    R.assume.append("handles that are not null are assumed to be valid; null output arrays of the accessors are outside the contract")
    E = entries(P)
    for n, f in sorted(E.items()):
        if not n.startswith(("MoorDyn", "Get", "external", "get", "set")):
            continue
        hs = [p for p in f["params"] if HANDLE.match(p["t"])]
        if hs:
            # an entry with several handles: the first is the object; an optional seafloor may be null
            hs = hs[:1]
            for h in hs:
                I = NApi(P)
                try:
                    st, v = I.call_entry(f, args={h["n"]: NULL})
                except Limit as x:
                    R.unknown("%s: %s" % (n, x))
                    continue
                verdict(R, n, h["n"], f, I, st, v)
        elif n not in ("MoorDyn_Create", "MoorDynInit"):
            gl = singleton(P, f)
            if not gl:
                continue
            I = NApi(P)
            st = State()
            for g in gl:
                I.write(st, g, NULL, "__MoorDyn *")
            try:
                st, v = I.call_entry(f, st=st)
            except Limit as x:
                R.unknown("%s: %s" % (n, x))
                continue
            verdict(R, n, "the global instance", f, I, st, v)
    for fn, args in (("Init", ("x", "xd")), ("Step", ("x", "xd", "f")), ("GetForces", ("f",))):
        for f in P.fn("moordyn::MoorDyn::" + fn):
            for a in args:
                if not any(p["n"] == a for p in f["params"]):
                    R.unknown("MoorDyn::%s has no parameter %s" % (fn, a))
                    continue
                I = NOrch(P)
                I.hooks["moordyn::MoorDyn::NCoupledDOF"] = lambda I, e, st, fr: C(6)
                st0 = State()
                extra = {a: NULL}
                if fn == "Step":
                    extra["dt"] = C(Fraction(1, 10))
                try:
                    st, v = I.call_entry(f, this=(("T", "this"),), args=extra, st=st0)
                except Limit as x:
                    R.unknown("MoorDyn::%s: %s" % (fn, x))
                    continue
                verdict(R, "MoorDyn::" + fn, a, f, I, st, v)
    R.floor("null handles", 80)


def singleton(P, f):
    out = set()

    def find(g, depth):
        for n in walk(g["body"]):
            if n["k"] == "ref" and n.get("dk") == "global" and HANDLE.match(n.get("t") or ""):
                out.add((("G", n["n"]),))
            if n["k"] == "call" and depth < 1:
                h = P.funcs.get(n.get("fn"))
                if h is not None and not h.get("cls"):
                    find(h, depth + 1)
    find(f, 0)
    return out


def verdict(R, n, h, f, I, st, v):
    R.count("null handles")
    bad = list(I.nullderef)
    for e, pre in flat_events(st.ev):
        if e[0] == "call" and isinstance(e[2], Null):
            bad.append((e[1], e[4], "method call " + e[1]))
    if bad:
        b = bad[0]
        R.violation("%s(%s null) dereference" % (n, h), "%s line %s" % (loc(f), b[1]),
                    "with %s null the function reaches a %s through it" % (h, b[2]))
        return
    rt = f.get("rt") or ""
    if rt == "void" or n == "externalWaveKinInit":      # the latter returns a count
        R.held("%s(%s null): not dereferenced" % (n, h))
        return
    r = error_value(v, rt)
    if r == "ok":
        R.violation("%s(%s null) result" % (n, h), loc(f), "with %s null the function returns %s, which is not an error" % (h, show(v) if isinstance(v, Poly) else v))
    elif r == "err":
        R.held("%s(%s null): refused" % (n, h))
    else:
        R.unknown("%s(%s null): returns %s" % (n, h, str(v)[:100]))
