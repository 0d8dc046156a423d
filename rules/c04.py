"""C04: one layout of the coupled degrees of freedom everywhere."""
from model import *
from orch import *
from util import *
from poly import _atoms

KINDS = (("bodies", "CpldBodyIs", "BodyList", "moordyn::Body"), ("rods", "CpldRodIs", "RodList", "moordyn::Rod"),
         ("points", "CpldPointIs", "PointList", "moordyn::Point"))
THIS = (("T", "this"),)


class Layout:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.types = {}
        for k, lst, objs, cls in KINDS:
            ev = enum_vals(P, cls)
            self.types[k] = [(n, ev[n]) for n in ("COUPLED", "CPLDPIN") if n in ev]

    def kind_of(self, term):
        """kind of the coupled object a pointer term refers to, and its element path"""
        for k, lst, objs, cls in KINDS:
            if contains(term, lambda t: t == (".", objs)) and contains(term, lambda t: t == (".", lst)):
                return k
        return None

    def fix_type(self, p, k, val):
        """assume that every object of kind k has the given type"""
        objs = dict((x[0], x[2]) for x in KINDS)[k]

        def f(at):
            if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple and at[1][0] == "in" and at[1][1][-1] == (".", "type") \
                    and contains(at, lambda t: t == (".", objs)):
                return C(val)
            return None
        return subst(p, f)

    def canon(self, p):
        """sums over per-object widths as tables over the object types"""
        def f(at):
            if type(at) is tuple and at[0] == "sum":
                k = self.kind_of(at[1])
                if k:
                    vals = []
                    for n, v in self.types[k]:
                        w = self.fix_type(at[1], k, v)
                        if not w.is_const():
                            return None
                        vals.append(w.cval())
                    if len(set(vals)) == 1:
                        return C(vals[0]) * at[2]
                    return Poly.atom(("tsum", k, tuple(vals), at[2]))
            return None
        return subst(p, f)


def run_fn(P, name, ptrs):
    fs = [f for f in P.fn("moordyn::MoorDyn::" + name)]
    if not fs:
        raise AnalysisError("MoorDyn::%s not found" % name)
    I = Orch(P)
    terms = {}
    for n in ptrs:
        v = I.read(State(), (("P", n),), "double *")
        terms[n] = v.v[0]
    I.watch = tuple(terms.values())
    st, v = I.call_entry(fs[0], this=THIS)
    return I, st, v, terms, fs[0]


def ref_of(p, terms):
    """p is exactly one element of a watched array -> (name, index)"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple and at[1][0] == "in":
                path = at[1][1]
                if len(path) == 2 and path[0][0] == "D" and path[1][0] == "[":
                    for n, t in terms.items():
                        if path[0][1] == t:
                            return n, path[1][1]
    return None


def run(P, R):
    R.rule("Abstract execution of Init, Step, GetForces and NCoupledDOF with symbolic object lists: for every coupled "
           "body, rod and point the offsets of the components read from x and xd and written to f are derived as closed "
           "forms (prefix sums over the object types) and must be the same layout in all of them: bodies, then rods, then "
           "points, packed without gap or overlap, with the advertised number of components.")
    R.rule("Component k of x, xd is handed to component k of the object; the object's net force component k goes to f; "
           "the acceleration handed over is the change of velocity divided by the coupling step.")
    R.assume.append("coupled lists hold objects of the coupled and coupled-pinned types only")
    L = Layout(P, R)
    tab = {}      # (fn, kind, type, array) -> {comp: offset}
    where = {}
    for fname, ptrs in (("Init", ("x", "xd")), ("Step", ("x", "xd", "f")), ("GetForces", ("f",))):
        I, st, ret, terms, f = run_fn(P, fname, ptrs)
        where[fname] = loc(f)
        R.count("functions")
        for e, pre in flat_events(st.ev):
            if e[0] == "call" and isinstance(e[2], (PtrT, Ptr)) and fname != "GetForces":
                k = L.kind_of(e[2])
                if k is None or not any(n in e[1] for n in ("initiateStep", "initializeUnfree")):
                    continue
                for ai, arr in ((0, "x"), (1, "xd")):
                    if ai >= len(e[3]) or not isinstance(e[3][ai], Mat):
                        continue
                    for tn, tv in L.types[k] or [(None, None)]:
                        d = tab.setdefault((fname, k, tn, arr), {})
                        for c, el in enumerate(e[3][ai].e):
                            p = L.canon(el)
                            if tn is not None:
                                p = L.fix_type(p, k, tv)
                            r = ref_of(p, terms)
                            if r is not None:
                                if r[0] != arr:
                                    R.violation("%s %s %s source" % (fname, k, arr), loc(f), "component %d of the %s argument of the %s is taken from %s"
                                                % (c, arr, k, r[0]))
                                d[c] = r[1]
                            elif not contains(p, lambda t: type(t) is tuple and t and t[0] == "undef") and not vague(p):
                                R.violation("%s %s %s value" % (fname, k, arr), loc(f), "component %d of the %s handed to the coupled %s is %s" % (c, arr, k, show(p)[:200]))
                if fname == "Step" and len(e[3]) > 2 and isinstance(e[3][2], Mat):
                    accel(P, R, L, e, k, terms, f)
            if e[0] == "store" and e[1][0][1] == terms.get("f"):
                src = e[2]
                k = L.kind_of(src)
                comp = None
                if isinstance(src, Poly) and len(src.t) == 1:
                    (m, c), = src.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        at = _atoms[m[0][0]]
                        comp = comp_of(at)
                if k is None or comp is None:
                    R.unknown("%s: store to f of %s" % (fname, show(src)[:120]))
                    continue
                getter = calls(src, "::getFnet")
                if not getter:
                    R.violation("%s %s force source" % (fname, k), loc(f), "f of the %s receives %s, not the net force" % (k, show(src)[:200]))
                for tn, tv in L.types[k] or [(None, None)]:
                    ok = True
                    for pp in pre:
                        if pp[0] == "if":
                            c = pp[1]
                            cc = fsub_type(L, c, k, tv) if tn else c
                            if cc.k == "N":
                                ok = False
                    if ok:
                        off = L.canon(e[1][1][1])
                        if tn is not None:
                            off = L.fix_type(off, k, tv)
                        d = tab.setdefault((fname, k, tn, "f"), {})
                        if comp in d and d[comp] != off:
                            R.unknown("%s: f component %d of %s written twice" % (fname, comp, k))
                        d[comp] = off
    decide(P, R, L, tab, where)


def fsub_type(L, c, k, tv):
    objs = dict((x[0], x[2]) for x in KINDS)[k]

    def f(at):
        if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple and at[1][0] == "in" and at[1][1][-1] == (".", "type") \
                and contains(at, lambda t: t == (".", objs)):
            return C(tv)
        return None
    return fsubst(c, f, {})


def comp_of(at):
    """component index of a matrix-valued term"""
    if type(at) is tuple and at[0] == "v" and type(at[1]) is tuple and len(at[1]) >= 2 and type(at[1][-1]) is int:
        return at[1][-1]
    if type(at) is tuple and type(at[-1]) is int:
        return at[-1]
    return None


def accel(P, R, L, e, k, terms, f):
    rd, rdd = e[3][1], e[3][2]
    dt = None
    for pn in f["params"]:
        if pn["n"] == "dt":
            dt = Poly.atom(("v", ("in", (("P", "dt"),))))
    for tn, tv in L.types[k]:
        bad = None
        n = 0
        for c in range(min(len(rd.e), len(rdd.e))):
            v, a = L.fix_type(L.canon(rd.e[c]), k, tv), L.fix_type(L.canon(rdd.e[c]), k, tv)
            if contains(v, lambda t: type(t) is tuple and t and t[0] == "undef"):
                continue
            if dt is None:
                return
            d = a * dt - v
            # -previous velocity, same component
            if len(d.t) == 1:
                (m, cf), = d.t.items()
                at = _atoms[m[0][0]]
                if cf == -1 and len(m) == 1 and m[0][1] == 1 and comp_of(at) == c and calls(at, "::getUnfreeVel"):
                    n += 1
                    continue
            if not vague(d, ("fresh", "loopout", "mu", "undef", "eop")):
                bad = (c, show(a)[:200])
        if bad:
            R.violation("Step %s acceleration" % k, loc(f), "component %d of the acceleration of the coupled %s is %s" % (bad[0], k, bad[1]))
        elif n:
            R.held("Step: acceleration of %s (%s): %d components" % (k, tn, n))


def decide(P, R, L, tab, where):
    width = {}
    for (fn, k, tn, arr), d in sorted(tab.items(), key=str):
        if not d:
            R.unknown("%s: %s of %s (%s)" % (fn, arr, k, tn))
            continue
        R.count("layouts")
        base = d.get(0)
        key = "%s %s (%s) %s" % (fn, k, tn, arr)
        if base is None:
            R.violation(key, where[fn], "component 0 is not transferred")
            continue
        bad = [c for c in d if d[c] - base != C(c)]
        if bad:
            if any(vague(d[c]) for c in d):
                R.unknown(key)
            else:
                c = bad[0]
                R.violation(key, where[fn], "component %d is at offset %s while component 0 is at %s" % (c, show(d[c]), show(base)))
            continue
        if sorted(d) != list(range(len(d))):
            R.violation(key + " components", where[fn], "only components %s are transferred" % sorted(d))
            continue
        width[(fn, k, tn, arr)] = len(d)
    # widths agree
    W = {}
    for (fn, k, tn, arr), w in sorted(width.items(), key=str):
        W.setdefault((k, tn), {}).setdefault(w, []).append("%s/%s" % (fn, arr))
    exp = {("bodies", "COUPLED"): 6, ("rods", "COUPLED"): 6, ("bodies", "CPLDPIN"): 3, ("rods", "CPLDPIN"): 3, ("points", "COUPLED"): 3}
    for (k, tn), d in sorted(W.items(), key=str):
        if len(d) > 1:
            R.violation("width %s %s" % (k, tn), where["Step"], "the number of components per object differs: %s" % d)
        elif list(d)[0] != exp.get((k, tn), list(d)[0]):
            R.violation("width %s %s" % (k, tn), where["Step"], "%d components are exchanged, %d are documented" % (list(d)[0], exp[(k, tn)]))
        else:
            R.held("%s %s: %d components in %s" % (k, tn, list(d)[0], ", ".join(list(d.values())[0])))
    wk = {k: [list(W[(k, tn)])[0] for tn, _ in L.types[k] if (k, tn) in W] for k, _, _, _ in KINDS}

    def total(k, n):
        ws = wk[k]
        if not ws:
            return None
        if len(set(ws)) == 1:
            return C(ws[0]) * n
        return Poly.atom(("tsum", k, tuple(Fraction(w) for w in ws), n))
    I = Interp(P)
    size = {k: I.num(I.read(State(), THIS + ((".", lst), (".", "#size")), "unsigned long")) for k, lst, _, _ in KINDS}
    it = None
    for (fn, k, tn, arr), d in sorted(tab.items(), key=str):
        if 0 not in d or (fn, k, tn, arr) not in width:
            continue
        its = set()
        for a in all_atoms(d[0]):
            if type(a) is tuple and a[0] == "it":
                its.add(a)
        want = ZERO
        for k2, _, _, _ in KINDS:
            if k2 == k:
                break
            want = want + total(k2, size[k2])
        key = "%s %s (%s) %s" % (fn, k, tn, arr)
        w0 = None
        for a in its or {("it", 0)}:
            w = want + total(k, Poly.atom(a))
            if d[0] == w:
                w0 = w
        if w0 is not None:
            R.held("%s: offset %s" % (key, show(w0)))
        elif vague(d[0]):
            R.unknown("%s: offset %s" % (key, show(d[0])[:200]))
        else:
            R.violation(key + " offset", where[fn], "the %s start at offset %s; packed after the preceding objects they start at %s"
                        % (k, show(d[0]), show(want + total(k, Poly.atom(("it", 0))))))
    # advertised number
    f = P.one("moordyn::MoorDyn::NCoupledDOF")
    I2 = Orch(P)
    st, v = I2.call_entry(f, this=THIS)
    v = L.canon(I2.num(v))
    rest = v
    for k, lst, objs, cls in KINDS:
        got = {}
        for i, (tn, tv) in enumerate(L.types[k]):
            g = ZERO
            for m, c in v.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    at = _atoms[m[0][0]]
                    if Poly.atom(at) == size[k]:
                        g = g + C(c)
                    elif type(at) is tuple and at[0] == "tsum" and at[1] == k and at[3] == size[k]:
                        g = g + C(c * at[2][i])
            got[tn] = g
            w = W.get((k, tn))
            if not w:
                continue
            w = list(w)[0]
            if vague(v):
                R.unknown("NCoupledDOF %s %s" % (k, tn))
            elif g == C(w):
                R.held("NCoupledDOF counts %d per %s %s" % (w, tn, k))
            else:
                R.violation("NCoupledDOF %s %s counts %s exchanges %d" % (k, tn, show(g), w), loc(f),
                            "NCoupledDOF counts %s components for each %s object of the %s, the exchange uses %d" % (show(g), tn, k, w))
        rest = rest - sum_terms(v, size[k], k)
    if is_zero(rest):
        R.held("NCoupledDOF has no other terms")
    elif vague(rest):
        R.unknown("NCoupledDOF other terms %s" % show(rest)[:200])
    else:
        R.violation("NCoupledDOF other", loc(f), "NCoupledDOF has extra terms %s" % show(rest))
    R.floor("functions", 3)
    R.floor("layouts", 8)


def sum_terms(v, size, k):
    out = ZERO
    for m, c in v.t.items():
        if len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if Poly.atom(at) == size or (type(at) is tuple and at[0] == "tsum" and at[1] == k):
                out = out + C(c) * Poly.atom(at)
    return out


def all_atoms(x, seen=None):
    out = []
    contains(x, lambda t: out.append(t) and False)
    return out
