"""C08: every substep drives every object, with its own state, in dependency order."""
from model import *
from drive import *
from poly import _atoms

KINDS = (("bodies", "moordyn::Body"), ("rods", "moordyn::Rod"), ("points", "moordyn::Point"), ("lines", "moordyn::Line"))
THIS = (("T", "this"),)
FREEISH = {"bodies": ("FREE", "CPLDPIN"), "rods": ("FREE", "PINNED", "CPLDPIN"), "points": ("FREE",)}
DRIVEN = {"bodies": ("COUPLED", "CPLDPIN"), "rods": ("COUPLED", "CPLDPIN"), "points": ("COUPLED",)}
ALLT = {"bodies": ("FREE", "FIXED", "COUPLED", "CPLDPIN"), "rods": ("FREE", "PINNED", "FIXED", "COUPLED", "CPLDPIN"),
        "points": ("FREE", "FIXED", "COUPLED")}


def run(P, R):
    R.rule("Abstract execution of the integrator's Update, CalcStateDeriv and Init with symbolic object lists: for every object kind "
           "and type, which method is called on the i-th object, for which i, with which arguments, and in which order.")
    R.rule("Registering an object adds exactly one entry to the list, to every stored state and derivative and to the mask; removing "
           "it erases the entry of the same index from each of them.")
    R.rule("Code that registers objects with an integrator or with the waves registers all four kinds.")
    seen = set()
    for f in sorted(P.funcs.values(), key=lambda f: f["qn"]):
        cls, _, n = f["qn"].rpartition("::")
        if "TimeSchemeBase<" not in cls or not cls.split("::")[-1].startswith("TimeSchemeBase<") or not f.get("body"):
            continue
        key = (n, f.get("file"), f.get("l"))
        try:
            if n == "Update" and len(f["params"]) == 2:
                update(P, R, cls, f)
            elif n == "CalcStateDeriv" and len(f["params"]) == 1:
                deriv(P, R, cls, f)
            elif n == "Init" and not f["params"]:
                init(P, R, cls, f)
            elif n in ADD:
                added(P, R, cls, f, ADD[n])
            elif n in REM:
                removed(P, R, cls, f, REM[n])
            else:
                continue
        except (Missing, Limit, Terminated) as x:
            R.unknown("%s::%s: %s" % (cls, n, x))
        R.count("functions")
    register(P, R)
    R.floor("functions", 8)


ADD = {"AddBody": "bodies", "AddRod": "rods", "AddPoint": "points", "AddLine": "lines"}
REM = {"RemoveBody": "bodies", "RemoveRod": "rods", "RemovePoint": "points", "RemoveLine": "lines"}


def loc(f):
    return "%s (%s:%s)" % (f["qn"], f.get("file"), f.get("l"))


class Fn:
    def __init__(self, P, cls, f):
        self.P, self.cls, self.f = P, cls, f
        self.I = Drive(P, cls)
        self.st, self.v = self.I.call_entry(f, THIS)
        self.calls = all_calls(self.st.ev) if self.st is not None else []
        self.this = Ref(self.I, THIS, cls)
        self.byelem = {}
        self.odd = {k: 0 for k, _ in KINDS}
        for c in self.calls:
            e = elem(c.obj)
            if e is not None and len(e[0]) == 2 and e[0][0] == ("T", "this") and e[0][1][1] in dict(KINDS):
                self.byelem.setdefault((e[0][1][1], c.name), []).append((c, e[1]))
            elif c.obj is not None:
                for k, cl in KINDS:
                    if c.qn.startswith(cl + "::") and not self.known_obj(c.obj):
                        self.odd[k] += 1

    def known_obj(self, o):
        """the ground body"""
        return contains(o, lambda t: t == (".", "ground"))

    def enum(self, k):
        return enum_vals(self.P, dict(KINDS)[k])

    def types(self, k):
        ev = self.enum(k)
        return [(n, ev[n]) for n in ALLT.get(k, ()) if n in ev]

    def when(self, k, name, val=None):
        """calls of a method on the i-th object of a kind when it has the given type:
        list of (call, index, remaining conditions)"""
        out = []
        for c, i in self.byelem.get((k, name), ()):
            tp = (("D", ("in", THIS + ((".", k), ("[", i)))), (".", "type"))
            ok, rest = under(c.pc, tp, val if val is not None else 0) if val is not None else (True, list(c.pc))
            if ok:
                out.append((c, i, rest))
        return out

    def all_of(self, k, c, i, rest, mask=False):
        """is the call made for every object of the kind?  True/False/None"""
        n = getattr(self.this, k).size
        it = None
        if len(c.loops) != 1 or not isinstance(i, Poly):
            return None
        cnt = c.loops[0][1]
        itp = Poly.atom(("it", 0))
        extra = []
        for g in rest:
            # the loop's own bound
            g2 = g
            if contains(g, lambda t: t == ("it", 0)) and self.bound(g, cnt, itp):
                continue
            if mask and contains(g, lambda t: t == (".", "_calc_mask")):
                continue
            extra.append(g2)
        if extra:
            return None if any(vague(g) for g in extra) else "cond"
        if i == itp:
            if cnt == n:
                return True
            return None if not isinstance(cnt, Poly) or vague(cnt) else "range"
        if isinstance(cnt, Poly) and not vague(i) and not vague(cnt):
            if i == n - ONE - itp and cnt == n:
                return True
            return "range"
        return None

    def bound(self, g, cnt, itp):
        return g.k in ("ge", "gt") and isinstance(g.v, Poly) and isinstance(cnt, Poly) and g.v in (cnt - ONE - itp, cnt - itp, itp)


def demand(R, F, k, name, tn, val, mask=False):
    """exactly the objects of that kind and type get the call; returns the (call, index) or None"""
    what = "%s: %s on %s of type %s" % (F.f["qn"].rpartition("::")[2], name, k, tn) if tn else "%s: %s on %s" % (F.f["qn"].rpartition("::")[2], name, k)
    hits = F.when(k, name, val)
    if not hits:
        if F.odd[k]:
            R.unknown(what)
        else:
            R.violation("%s|missing" % what, loc(F.f), "%s is never called%s" % (name, " on %s of type %s" % (k, tn) if tn else " on " + k))
        return None
    for c, i, rest in hits:
        a = F.all_of(k, c, i, rest, mask)
        if a is True:
            R.held(what)
            return c, i
    c, i, rest = hits[0]
    a = F.all_of(k, c, i, rest, mask)
    if a in ("cond", "range"):
        R.violation("%s|partial" % what, "%s line %s" % (loc(F.f), c.line),
                    "%s is not called on every one of the %s%s" % (name, k, " of type " + tn if tn else ""))
    else:
        R.unknown(what)
    return c, i


def forbid(R, F, k, name, tn, val):
    what = "%s: no %s on %s of type %s" % (F.f["qn"].rpartition("::")[2], name, k, tn)
    hits = F.when(k, name, val)
    bad = [c for c, i, rest in hits if F.all_of(k, c, i, rest, True) is True]
    if bad:
        R.violation(what, "%s line %s" % (loc(F.f), bad[0].line), "%s is called on %s of type %s" % (name, k, tn))
    elif not hits:
        R.held(what)


def arg_is(R, F, c, j, want, what):
    got = c.args[j] if j < len(c.args) else None
    r = "eq" if got == want else cmpv(got, want) if got is not None else "?"
    if r == "ne":
        R.violation("%s|%s" % (F.f["qn"].rpartition("::")[2], what), "%s line %s" % (loc(F.f), c.line), "%s is called with another value than %s" % (c.name, what))
    elif r == "eq":
        R.held("%s: %s is given %s" % (F.f["qn"].rpartition("::")[2], c.name, what))
    else:
        R.unknown("%s: %s" % (c.name, what))


def update(P, R, cls, f):
    F = Fn(P, cls, f)
    tl = F.I.sym(("in", (("P", f["params"][0]["n"]),)), "double") + F.this.t_local.v
    sub = F.I.sym(("in", (("P", f["params"][1]["n"]),)), "int")
    done = {}
    for k, cl in KINDS:
        for tn, val in F.types(k):
            if tn in DRIVEN[k]:
                h = demand(R, F, k, "updateFairlead", tn, val)
                if h:
                    arg_is(R, F, h[0], 0, tl, "the time since the coupling step began")
                    done.setdefault((k, tn), []).append(h[0].pos)
            else:
                forbid(R, F, k, "updateFairlead", tn, val)
            if tn in FREEISH[k]:
                h = demand(R, F, k, "setState", tn, val)
                if h:
                    state_args(R, F, k, h, sub)
                    done.setdefault((k, tn), []).append(h[0].pos)
            else:
                forbid(R, F, k, "setState", tn, val)
    for tn in ("CPLDPIN",):
        for k in ("bodies", "rods"):
            d = done.get((k, tn), [])
            if len(d) == 2 and d[0] > d[1]:
                R.violation("Update|order %s" % k, loc(f), "the prescribed motion of %s is applied after their state" % k)
            elif len(d) == 2:
                R.held("Update: prescribed motion of %s before their state" % k)
    h = demand(R, F, "lines", "setState", None, None)
    if h:
        state_args(R, F, "lines", h, sub)
    h = demand(R, F, "lines", "updateUnstretchedLength", None, None)
    if h:
        arg_is(R, F, h[0], 0, tl, "the time since the coupling step began")
    for k in ("rods", "lines"):
        h = demand(R, F, k, "setTime", None, None)
        if h:
            arg_is(R, F, h[0], 0, F.this.t.v, "the simulation time")
    # bodies move the rods attached to them
    pos = {}
    for (k, n), l in F.byelem.items():
        if n in ("setState", "updateFairlead") and k in ("bodies", "rods"):
            pos.setdefault(k, []).extend(c.pos for c, i in l)
    if pos.get("bodies") and pos.get("rods"):
        b = [c.pos for c, i in F.byelem.get(("bodies", "setState"), ())]
        r = [c.pos for c, i in F.byelem.get(("rods", "setState"), ())]
        if b and r and max(b) > min(r):
            R.violation("Update|order bodies rods", loc(f), "the state of rods is set before that of the bodies that carry them")
        elif b and r:
            R.held("Update: bodies before rods")


def state_args(R, F, k, h, sub):
    c, i = h
    e = getattr(F.this.r[sub], k)[i]
    arg_is(R, F, c, 0, e.pos.v, "the position of the same object in the requested state")
    arg_is(R, F, c, 1, e.vel.v, "the velocity of the same object in the requested state")


def proj(I, call, part, ty):
    """value of one half of the pair a call returns"""
    return None


def stored(R, F, k, base, parts, method, what):
    """the two halves of the pair returned by the call are stored in the i-th entry"""
    for e, pre in flat_events(F.st.ev):
        if e[0] != "set":
            continue
        p = e[1]
        v = e[2]
        if not contains(v, lambda t: type(t) is tuple and len(t) > 3 and t[0] == "call" and type(t[1]) is str
                        and t[1] == dict(KINDS)[k] + "::" + method):
            continue
        firsts = contains(v, lambda t: t == (".", "first"))
        seconds = contains(v, lambda t: t == (".", "second"))
        if firsts == seconds:
            R.unknown("%s: %s of %s" % (what, method, k))
            continue
        idx = []

        def g(t):
            if type(t) is tuple and len(t) > 3 and t[0] == "call" and type(t[1]) is str and t[1].endswith("::" + method):
                el = elem(t[3])
                if el is not None:
                    idx.append(el)
            return False
        contains(v, g)
        if not idx:
            continue
        want = getattr(getattr(base, k)[idx[0][1]], parts[0] if firsts else parts[1]).path
        name = "%s: %s of %s is stored as the %s of the same object" % (what, method, k, parts[0] if firsts else parts[1])
        if p == want:
            R.held(name)
        elif not vague(p):
            R.violation(name, loc(F.f), "the result of %s of %s is stored elsewhere" % (method, k))
        else:
            R.unknown(name)


def deriv(P, R, cls, f):
    F = Fn(P, cls, f)
    sub = F.I.sym(("in", (("P", f["params"][0]["n"]),)), "int")
    first = None
    linepos = []
    others = []
    for k, cl in KINDS:
        for tn, val in F.types(k):
            if tn in FREEISH[k]:
                h = demand(R, F, k, "getStateDeriv", tn, val, True)
                if h:
                    mask_ok(R, F, k, h)
                    others.append((h[0].pos, k))
            else:
                forbid(R, F, k, "getStateDeriv", tn, val)
            if tn in DRIVEN[k] and tn not in FREEISH[k]:
                h = demand(R, F, k, "doRHS", tn, val, True)
                if h:
                    others.append((h[0].pos, k))
        stored(R, F, k, F.this.rd[sub], ("vel", "acc"), "getStateDeriv", "CalcStateDeriv")
    h = demand(R, F, "lines", "getStateDeriv", None, None, True)
    if h:
        mask_ok(R, F, "lines", h)
        late = [k for p, k in others if p < h[0].pos]
        if late:
            R.violation("CalcStateDeriv|order", loc(f), "the loads on %s are summed before the forces of the lines are computed" % late[0])
        else:
            R.held("CalcStateDeriv: lines before everything they are attached to")
        w = [c.pos for c in F.calls if c.name == "updateWaves"]
        if not w:
            if not any("Waves" in c.qn for c in F.calls):
                R.violation("CalcStateDeriv|waves", loc(f), "the water kinematics are not updated")
        elif min(w) > h[0].pos:
            R.violation("CalcStateDeriv|waves", loc(f), "the water kinematics are updated after the lines used them")
        else:
            R.held("CalcStateDeriv: water kinematics first")


def mask_ok(R, F, k, h):
    """the mask consulted is the one of the same object"""
    c, i = h
    for g in c.pc:
        if contains(g, lambda t: t == (".", "_calc_mask")):
            want = getattr(F.this._calc_mask, k)[i].path
            if contains(g, lambda t: t == want) or contains(g, lambda t: type(t) is tuple and t == ("in", want)):
                R.held("CalcStateDeriv: the mask of the same object (%s)" % k)
            elif not vague(g):
                R.violation("CalcStateDeriv|mask %s" % k, "%s line %s" % (loc(F.f), c.line), "the mask of another object decides whether %s are computed" % k)


def init(P, R, cls, f):
    F = Fn(P, cls, f)
    for k, cl in KINDS:
        for tn, val in F.types(k):
            if tn in FREEISH[k] and not (k == "rods" and tn == "CPLDPIN"):
                demand(R, F, k, "initialize", tn, val)
        stored(R, F, k, F.this.r[0], ("pos", "vel"), "initialize", "Init")
    h = demand(R, F, "lines", "initialize", None, None)
    if h:
        late = [k for (k, n), l in F.byelem.items() if n == "initialize" and k != "lines" and any(c.pos > h[0].pos for c, i in l)]
        if late:
            R.violation("Init|order", loc(f), "lines are initialised before the %s that hold their ends" % late[0])
        else:
            R.held("Init: lines last")


def added(P, R, cls, f, k):
    F = Fn(P, cls, f)
    if F.st is None:
        raise Limit("no normal exit")
    I, st = F.I, F.st
    lists = [("the list", getattr(F.this, k))]
    for arr in ("r", "rd"):
        ref = getattr(F.this, arr)
        for j in range(tinfo(ref.ty)[2]):
            lists.append(("%s[%d]" % (arr, j), getattr(ref[j], k)))
    lists.append(("the mask", getattr(F.this._calc_mask, k)))
    for nm, ref in lists:
        got = I.num(I.read(st, ref.path + ((".", "#size"),), "unsigned long"))
        c = cmpv(got, ref.size + ONE)
        what = "%s adds one entry to %s" % (f["qn"].rpartition("::")[2], nm)
        if c == "eq":
            R.held(what)
        elif c == "ne":
            R.violation(what, loc(f), "%s does not add one entry of %s to %s" % (f["qn"], k, nm))
        else:
            R.unknown(what)
    got = I.read(st, getattr(F.this._calc_mask, k).path + (("[", getattr(F.this._calc_mask, k).size),), "bool")
    if isinstance(got, F_) and got.k == "N":
        R.violation("%s mask value" % f["qn"].rpartition("::")[2], loc(f), "new objects are masked out")
    if k == "lines":
        for arr in ("r", "rd"):
            ref = getattr(F.this, arr)
            for j in range(tinfo(ref.ty)[2]):
                l = getattr(ref[j], k)
                e = l[l.size]
                for part in (("pos", "vel") if arr == "r" else ("vel", "acc")):
                    p = getattr(e, part).path + ((".", "#size"),)
                    got = I.num(I.read(st, p, "unsigned long"))
                    n = [c for c in F.calls if c.name == "getN"]
                    if isinstance(got, Poly) and n and vague(got, ("call",)) and not vague(got, tuple(x for x in VAGUE if x != "call")):
                        at = list(got.atoms())
                        if len(at) == 1 and got - Poly.atom(_atoms[at[0]]) == C(-1):
                            R.held("AddLine: %s[%d].%s has one entry per internal node" % (arr, j, part))
                        elif len(at) == 1 and (got - Poly.atom(_atoms[at[0]])).is_const():
                            R.violation("AddLine|size %s[%d].%s" % (arr, j, part), loc(f), "%s[%d].%s does not have one entry per internal node" % (arr, j, part))


def offset(a, base=True):
    """index an iterator expression points at, from the beginning of its list"""
    if isinstance(a, Ptr):
        p = a.v[0]
        return p[-1][1] if p[-1][0] == "[" else None
    v = getattr(a, "v", None)
    v = v[0] if isinstance(v, tuple) and v and isinstance(v[0], tuple) else v
    if isinstance(v, tuple) and v and v[0] == "ctor" and "iterator" in str(v[1]) and len(v[2]) == 1:
        return offset(v[2][0])
    if isinstance(v, tuple) and v and v[0] in ("strcat", "+") and len(v) == 3:
        o = offset(v[1])
        return o + v[2] if o is not None and isinstance(v[2], Poly) else None
    if isinstance(v, tuple) and v and v[0] == "call" and str(v[1]).endswith("operator+"):
        o, args = None, None
        for x in v[2:]:
            if isinstance(x, Ptr) and o is None:
                o = offset(x)
            elif isinstance(x, tuple) and len(x) == 1:
                args = x[0]
        if o is not None and isinstance(args, Poly):
            return o + args
    return None


def removed(P, R, cls, f, k):
    F = Fn(P, cls, f)
    ers = {}
    for e, pre in flat_events(F.st.ev):
        if e[0] == "erase" and e[2]:
            a = e[2][0]
            ers.setdefault(e[1], []).append(a)
    lists = []
    for arr in ("r", "rd"):
        ref = getattr(F.this, arr)
        for j in range(tinfo(ref.ty)[2]):
            lists.append(("%s[%d]" % (arr, j), getattr(ref[j], k)))
    lists.append(("the mask", getattr(F.this._calc_mask, k)))
    for nm, ref in lists:
        what = "%s erases the entry of the removed object from %s" % (f["qn"].rpartition("::")[2], nm)
        h = ers.get(ref.path)
        if not h:
            if any(True for e, _ in flat_events(F.st.ev) if e[0] in ("erase", "insert", "pop_back")):
                R.unknown(what)
            continue
        a = h[0]
        idx = offset(a)
        if idx is None:
            R.unknown(what)
        elif isinstance(idx, Poly) and idx.is_const():
            R.violation(what, loc(f), "the entry %s of %s is erased whatever object is removed" % (idx.cval(), nm))
        elif idx == F.v or idx == F.I.num(F.v):
            R.held(what)
        else:
            R.unknown(what)


F_ = F


def register(P, R):
    """functions that register objects"""
    groups = (("TimeScheme", {"AddBody", "AddRod", "AddPoint", "AddLine"}), ("Waves", {"addBody", "addRod", "addPoint", "addLine"}))
    direct = {}
    callees = {}
    for fid, f in P.funcs.items():
        if not f.get("body"):
            continue
        for e in (x for x in walk(f["body"]) if x.get("k") == "call"):
            c = e.get("cls") or (e.get("qn") or "").rpartition("::")[0]
            n = e.get("n") or (e.get("qn") or "").rpartition("::")[2]
            for g, ns in groups:
                if n in ns and c.split("::")[-1].split("<")[0] in (g, g + "Base", "StationaryScheme"):
                    direct.setdefault((fid, g), set()).add(n)
            if e.get("fn") in P.funcs:
                callees.setdefault(fid, set()).add(e["fn"])
    for (fid, g), ns in sorted(direct.items(), key=lambda x: P.funcs[x[0][0]]["qn"]):
        f = P.funcs[fid]
        cls = f.get("cls") or ""
        if "Scheme" in cls or cls.endswith("Waves"):
            continue
        # with what the functions it calls do
        seen, work, tot = {fid}, [fid], set()
        while work:
            x = work.pop()
            tot |= direct.get((x, g), set())
            for y in callees.get(x, ()):
                if y not in seen and not (P.funcs[y].get("cls") or "").startswith(("moordyn::Time", "moordyn::Waves")):
                    seen.add(y)
                    work.append(y)
        if len(ns) < 2:
            continue
        full = dict(groups)[g]
        if tot >= full:
            R.held("%s registers every kind with %s" % (f["qn"], g))
            R.count("registrations")
        else:
            R.violation("%s|registers %s" % (f["qn"], g), loc(f), "%s registers objects with %s but not through %s" % (f["qn"], g, ", ".join(sorted(full - tot))))
