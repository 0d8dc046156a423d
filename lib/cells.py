"""Abstract execution with named intermediate results: a write to a chosen field stores a fresh
name for (write site, element) and remembers what the name stands for, so that what a later
statement reads is seen as 'the value written there' and not as the whole expression."""
from absint import *
from util import *
from drive import Drive
from poly import _atoms


class Cells(Drive):
    def __init__(self, P, cls, cut, after=None, **kw):
        self.c = cls
        self.after = after or {}
        self.cut = set(cut)
        self.sites = {}
        self.keep = []
        self.defs = {}
        self.stmt = self.nd = None
        super().__init__(P, cls, **kw)

    def want(self, f):
        if f["qn"].endswith("::solveMat6") or f.get("cls") == self.c and f["qn"].rpartition("::")[2] in self.after:
            return False
        return f.get("cls") == self.c or super().want(f)

    def exec(self, s, st, fr):
        if s is not None:
            self.stmt = s
        return super().exec(s, st, fr)

    def assign(self, st, p, v, e, fr):
        self.nd = e
        super().assign(st, p, v, e, fr)

    def wrplace(self, st, p, v):
        super().wrplace(st, p, v)
        path = p.path if p is not None else ()
        if len(path) < 2 or path[0] != ("T", "this") or path[1][1] not in self.cut or self.nocut(path):
            return
        ty = p.ty or self.types.get(path)
        cur = self.read(st, path, ty)
        if not isinstance(cur, (Mat, Quat, Poly)):
            return
        es = cur.e if isinstance(cur, (Mat, Quat)) else (cur,)
        if all(x.is_const() for x in es):
            return
        key = (id(self.stmt), id(self.nd), path[1][1], p.sel)
        self.keep.append((self.stmt, self.nd))
        site = self.sites.setdefault(key, "%s@%s#%d" % (path[1][1], (self.stmt or {}).get("l"), len(self.sites)))
        name = (("C", site),) + path[2:]
        k = ("quat",) if isinstance(cur, Quat) else ("mat", cur.r, cur.c) if isinstance(cur, Mat) else ("flt",)
        sym = self.sym(("in", name), k if k[0] != "quat" else ty)
        self.defs[name] = cur
        if isinstance(sym, type(cur)):
            self.write(st, path, sym, ty)

    def nocut(self, path):
        return False

    CLEAN = {"getEndStuff": 3, "getNetForceAndMass": 2}

    def opaque_call(self, e, st, fr):
        """what other objects answer gets a name of its own"""
        qn = e.get("qn") or ""
        n = qn.rpartition("::")[2]
        r = super().opaque_call(e, st, fr)
        if not e.get("in") or not st.ev or st.ev[-1][0] != "call":
            return r
        _, q, obj, args = st.ev[-1][:4]
        if n in self.after and qn.startswith(self.c or "?"):
            for fld in self.after[n]:
                path = (("T", "this"), (".", fld))
                ty = self.types.get(path) or next((x["t"] for _, x in self.P.all_fields(self.c) if x["n"] == fld), None)
                if ty:
                    self.write(st, path, self.sym(("in", (("C", n), (".", fld))), ty), ty)
        elif n in self.CLEAN:
            k = self.CLEAN[n]
            for i in range(k):
                p = self.lv(e["a"][i], st, fr)
                if p is not None:
                    self.wrplace(st, p, self.answer(qn, obj, args[k:], i, p.ty if p.sel is None else ("mat",) + p.shape))
        elif n.startswith("getWaveKin") or n == "getDepthAt":
            return self.answer(qn, obj, args, None, e["t"])
        elif n == "solveMat6":
            return self.answer(qn, None, args, None, e["t"])
        return r

    def answer(self, qn, obj, args, i, ty):
        return self.sym(("in", (("X", qn.rpartition("::")[2], obj, tuple(args)),) + (((".", "out%d" % i),) if i is not None else ())), ty)

    def expand(self, v, only=None, depth=12):
        """put the definitions of the names back"""
        if isinstance(v, Mat):
            return Mat(v.r, v.c, tuple(self.expand(x, only, depth) for x in v.e))
        if isinstance(v, Quat):
            return Quat(tuple(self.expand(x, only, depth) for x in v.e))
        if not isinstance(v, Poly) or depth < 0:
            return v
        hit = [False]

        def f(at):
            if type(at) is not tuple or at[0] != "v" or type(at[1]) is not tuple:
                return None
            t, i = (at[1], None) if at[1][0] == "in" else at[1] if len(at[1]) == 2 else (None, None)
            if type(t) is not tuple or not t or t[0] != "in" or not t[1] or t[1][0][0] != "C":
                return None
            if only is not None and t[1][0][1].partition("@")[0] not in only:
                return None
            d = self.definition(t[1])
            if d is None:
                return None
            x = d if i is None else d.e["xyzw".index(i) if type(i) is str else i] if isinstance(d, (Mat, Quat)) else None
            if not isinstance(x, Poly):
                return None
            hit[0] = True
            return x
        r = subst(v, f)
        return self.expand(r, only, depth - 1) if hit[0] else r

    def definition(self, name):
        if name in self.defs:
            return self.defs[name]
        for k, d in self.defs.items():
            if k[0] != name[0] or len(k) != len(name):
                continue
            sub = {}
            for a, b in zip(k[1:], name[1:]):
                if a == b:
                    continue
                if a[0] != "[" or b[0] != "[" or not isinstance(a[1], Poly) or not isinstance(b[1], Poly):
                    break
                its = [x for x in a[1].atoms() if type(atom(x)) is tuple and atom(x)[0] == "it"]
                if len(its) != 1:
                    break
                it = Poly.atom(atom(its[0]))
                if not contains(a[1] - it, lambda t: t == atom(its[0])):
                    sub[atom(its[0])] = b[1] - (a[1] - it)
                elif not contains(a[1] + it, lambda t: t == atom(its[0])):
                    sub[atom(its[0])] = (a[1] + it) - b[1]
                else:
                    break
            else:
                f = lambda at: sub.get(at)
                if isinstance(d, Mat):
                    return Mat(d.r, d.c, tuple(subst(x, f) for x in d.e))
                if isinstance(d, Quat):
                    return Quat(tuple(subst(x, f) for x in d.e))
                return subst(d, f)
        return None


def atom(i):
    return _atoms[i]


def sign(p, nn):
    """'+' (> 0), '0+' (>= 0), '-' (< 0), '0-' or None for a polynomial over atoms known to be >= 0"""
    k = p.t.get((), 0)
    cs = [(m, c) for m, c in p.t.items() if m]
    if any(a not in nn or e < 0 for m, _ in cs for a, e in m):
        return None
    if all(c > 0 for _, c in cs):
        return "+" if k > 0 else "0+" if k == 0 else None
    if all(c < 0 for _, c in cs):
        return "-" if k < 0 else "0-" if k == 0 else None
    return None


def nncond(g, nn):
    if g.k in ("and", "or"):
        return (f_and if g.k == "and" else f_or)(*[nncond(x, nn) for x in g.v])
    if g.k == "not":
        return f_not(nncond(g.v, nn))
    if g.k in ("gt", "ge", "eq") and isinstance(g.v, Poly):
        s = sign(g.v, nn)
        if s is None:
            return g
        if g.k == "eq":
            return FALSE if s in ("+", "-") else g
        if g.k == "gt":
            return TRUE if s == "+" else FALSE if s in ("-", "0-") else g
        return TRUE if s in ("+", "0+") else FALSE if s == "-" else g
    return g


def settle(v, atoms):
    """decide the conditions that follow from some integers being >= 0"""
    nn = set(aid(a) for a in atoms)
    if isinstance(v, Mat):
        return Mat(v.r, v.c, tuple(settle(x, atoms) for x in v.e))
    if isinstance(v, Quat):
        return Quat(tuple(settle(x, atoms) for x in v.e))
    if not isinstance(v, Poly):
        return v

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            c = nncond(fsubst(at[1], f, {}), nn)
            a = subst(at[2], f) if c.k != "N" else ZERO
            b = subst(at[3], f) if c.k != "T" else ZERO
            return a if c.k == "T" else b if c.k == "N" else ite(c, a, b)
        return None
    return subst(v, f)
