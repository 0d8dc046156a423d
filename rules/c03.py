"""C03: a checkpoint round trip restores what was saved."""
from model import *
from api import *
from expect import *

U64 = ("unsigned long", "uint64_t", "unsigned long long")


def is_stream(ty):
    if not ty:
        return False
    k = tinfo(ty)
    return k[0] == "vec" and tinfo(k[1]) == ("int", "u") or (k[0] == "vec" and k[1] in U64)


def kind(ty):
    """types that are packed alike"""
    k = tinfo(ty)
    if k[0] == "cls" and k[1].split("::")[-1] in ("uint64_t", "unsigned long"):
        return ("int", "u")
    if k[0] == "cls" and k[1].split("::")[-1] == "int64_t":
        return ("int",)
    if k[0] == "vec":
        return ("vec", kind(k[1]))
    return k


class Pack(Api):
    """streams of packed words are followed as sequences of events; the overloads that pack
    and unpack one value are the vocabulary"""

    def __init__(self, P, leafmode=False, top=None, **kw):
        super().__init__(P, inline_methods=lambda f: True, **kw)
        self.rdval = {}
        self.rid = 0
        self.top = top
        self.hooks = dict(self.hooks or {})
        self.hooks["*::Serialize"] = Pack.h_ser
        self.hooks["*::Deserialize"] = Pack.h_des

    # ---- streams
    def write(self, st, path, v, ty=None):
        if is_stream(ty or self.types.get(path)) and path[-1][0] != "[":
            if ty is not None:
                self.types[path] = ty
            st.ev = st.ev + [("new", path, v)]
            return
        if isinstance(v, (Poly, F, V)) and path[0][0] != "V" and not vague_root(path):
            for k in self.find_rd(v):
                st.ev = st.ev + [("dst", k, path)]
        super().write(st, path, v, ty)

    def find_rd(self, v):
        k = self.rdval.get(v)
        return [k] if k is not None else []

    def read(self, st, path, ty):
        if is_stream(ty):
            return Op(("S", path))
        if path[-1] == (".", "#size") and is_stream(self.types.get(path[:-1])):
            return A("ssize", path[:-1])
        return super().read(st, path, ty)

    def vecm(self, e, st, fr, n, op, o):
        if is_stream(o["t"]):
            p = self.lv(o, st, fr)
            if p is None:
                return super().vecm(e, st, fr, n, op, o)
            if n in ("push_back", "emplace_back"):
                v = self.ev(e["a"][0], st, fr)
                st.ev = st.ev + [("app", p.path, v)]
                return UNDEF
            if n == "insert":
                a = [unwrap(x) for x in self.argvals(e, st, fr)]
                src = None
                if len(a) == 3 and isinstance(a[1], Op) and isinstance(a[2], Op) and a[1].v[0][0] == "begin" and a[2].v[0] == ("end", a[1].v[0][1]) \
                        and isinstance(a[0], Op) and a[0].v[0] == ("end", p.path):
                    src = Op(("S", a[1].v[0][1]))
                st.ev = st.ev + [("appv", p.path, src)]
                return UNDEF
            if n in ("begin", "cbegin"):
                return Op(("begin", p.path))
            if n in ("end", "cend"):
                return Op(("end", p.path))
            if n == "size":
                return A("ssize", p.path)
            if n == "data":
                return Op(("sdata", p.path))
            if n in ("reserve", "shrink_to_fit"):
                return UNDEF
            if n == "clear":
                st.ev = st.ev + [("new", p.path, Agg(("empty",), ()))]
                return UNDEF
            if op == "=":
                v = self.ev(e["a"][0], st, fr)
                self.write(st, p.path, v, o["t"])
                return v
            st.ev = st.ev + [("new", p.path, None)]
            return Op(self.fresh("stream"))
        if n in ("push_back", "emplace_back", "clear", "resize", "assign"):
            p = self.lv(o, st, fr)
            if p is not None:
                if n in ("push_back", "emplace_back") and len(e["a"]) == 1:
                    v = self.ev(e["a"][0], st, fr)
                    k = self.rdval.get(v)
                    if k is not None:
                        st.ev = st.ev + [("push", k, p.path)]
                elif n == "clear":
                    st.ev = st.ev + [("clear", p.path)]
        return super().vecm(e, st, fr, n, op, o)

    # ---- packing and unpacking one thing
    def target(self, e):
        return self.P.funcs.get(e.get("fn"))

    def h_ser(self, e, st, fr):
        if len(e["a"]) == 0:
            f = self.resolve(e, st, fr)
            if e.get("o") is not None and e["o"]["k"] == "this" and f is not None and f.get("body") and f["fn"] != self.stack[0]:
                return None      # the part of a base class: inlined
            return Op(("sobj", self.recv(e, st, fr)))
        if len(e["a"]) != 1:
            return None
        ty = self.argty(e, 0)
        p = self.lv(e["a"][0], st, fr)
        if p is not None and p.sel is None and p.path[0][0] != "V":
            v = self.sym(("in", p.path), ty)
        else:
            v = self.ev(e["a"][0], st, fr)
        self.nser = getattr(self, "nser", 0) + 1
        return Op(("ser", kind(ty), v))

    def argty(self, e, i):
        return (e.get("pt") or [None] * 9)[i] or strip(e["a"][i]).get("t")

    def recv(self, e, st, fr):
        o = e["o"]
        if o["k"] == "this":
            return Ptr(fr_this(fr))
        if e.get("arrow"):
            return self.ev(o, st, fr)
        p = self.lv(o, st, fr)
        return Ptr(p.path) if p is not None else self.ev(o, st, fr)

    def h_des(self, e, st, fr):
        if len(e["a"]) == 1:
            if e.get("o") is not None and e["o"]["k"] == "this":
                f = self.resolve(e, st, fr)
                if f is not None and f.get("body") and f["fn"] != self.stack[0]:
                    return None
            pin = self.ev(e["a"][0], st, fr)
            self.rid += 1
            st.ev = st.ev + [("rdobj", self.rid, pin, self.recv(e, st, fr), e.get("l"))]
            return Op(("after", self.rid))
        if len(e["a"]) != 2:
            return None
        pin = self.ev(e["a"][0], st, fr)
        p = self.lv(e["a"][1], st, fr)
        ty = self.argty(e, 1)
        self.rid += 1
        k = self.rid
        st.ev = st.ev + [("rd", k, pin, (p.path, p.sel, p.ty, p.shape) if p is not None else None, kind(ty), ty, e.get("l"))]
        if p is not None:
            v = self.sym(("rdv", k), ty)
            self.rdval[v] = k
            self.wrplace(st, p, v)
        return Op(("after", k))


def unwrap(v):
    """iterator conversions"""
    for _ in range(3):
        if isinstance(v, Agg) and v.v[0] and v.v[0][0] == "ctor" and len(v.v[0]) > 2 and len(v.v[0][2]) == 1:
            v = v.v[0][2][0]
        elif isinstance(v, Op) and type(v.v[0]) is tuple and v.v[0][0] == "call" and len(v.v[0]) > 4 and len(v.v[0][4]) == 1 and v.v[0][3] is None:
            v = v.v[0][4][0]
        else:
            break
    return v


def vague_root(path):
    return path[0][0] not in ("T", "D", "P")


# ------------------------------------------------------------------ replay
class Unsure(Exception):
    pass


def content(v, env):
    """the sequence of items a stream value holds"""
    if isinstance(v, Agg) and v.v[0] == ("empty",):
        return []
    if isinstance(v, Op):
        t = v.v[0]
        if t[0] == "S":
            if t[1] not in env:
                raise Unsure("stream %r" % (t[1],))
            if env[t[1]] is None:
                raise Unsure("a stream of unknown content")
            return list(env[t[1]])
        if t[0] in ("ser", "sobj"):
            return [t]
    raise Unsure("a packed value the analysis cannot follow")


def replay(ev, env, top=True):
    for e in ev:
        if e[0] == "new":
            env[e[1]] = None if e[2] is None else content(e[2], env)
        elif e[0] in ("app", "appv"):
            if e[2] is None:
                raise Unsure("a range is inserted that is not a whole stream at the end")
            c = content(e[2], env)
            if env.get(e[1]) is None:
                raise Unsure("appending to a stream of unknown content")
            env[e[1]] = env[e[1]] + c
        elif e[0] == "loop":
            sub = {k: ([] if v is not None else None) for k, v in env.items()}
            # streams that are replaced inside the loop are only usable inside it
            replay(e[2], sub, False)
            repl = {x[1] for x, _ in flat_events(e[2]) if x[0] == "new"}
            for k in list(env):
                if k in repl:
                    env[k] = None
                elif sub.get(k):
                    env[k] = env[k] + [("loop", e[1], tuple(sub[k]))]
        elif e[0] == "if":
            a, b = dict(env), dict(env)
            replay(e[2], a, False)
            replay(e[3], b, False)
            for k in list(env):
                if a[k] == b[k]:
                    env[k] = a[k]
                elif a[k] is None or b[k] is None or env[k] is None:
                    env[k] = None
                else:
                    n = len(env[k])
                    env[k] = env[k] + [("if", e[1], tuple(a[k][n:]), tuple(b[k][n:]))]
    return env


def reads(ev, depth, R, msgs, cur, cleared):
    """the sequence of items that are read: ("r", kind, dest path or None, id, ty, line) / ("obj", receiver) / loops"""
    out = []
    dst = {}
    for e in ev:
        if e[0] == "dst":
            dst.setdefault(e[1], e[2])
    for e in ev:
        if e[0] in ("rd", "rdobj"):
            pin = e[2]
            if cur[0] is not None and pin != cur[0] and not vague(pin):
                msgs.append((e[-1], "reads from a position that is not where the previous reading ended"))
            if cur[0] == "entry-of-loop" and not vague(pin):
                pass
            cur[0] = Op(("after", e[1]))
            if e[0] == "rdobj":
                out.append(("obj", e[3], e[4]))
            else:
                out.append(["r", e[4], e[3], e[1], e[5], e[6]])
        elif e[0] == "clear":
            cleared.add(e[1])
        elif e[0] == "push":
            for it in out:
                if it[0] == "r" and it[3] == e[1]:
                    if e[2] not in cleared:
                        msgs.append((it[5], "appends the values that are read to a list that is not emptied before"))
                    it[2] = (e[2] + (("[", Poly.atom(("it", depth - 1))),), None)
        elif e[0] == "dst":
            for it in out:
                if it[0] == "r" and it[3] == e[1] and it[2] is not None and it[2][0][0][0] == "V":
                    it[2] = (e[2], None)
        elif e[0] == "loop":
            first = [x for x, _ in flat_events(e[2]) if x[0] in ("rd", "rdobj")]
            c2 = [None]
            if first and (cur[0] is not None and first[0][2] == cur[0] or not vague(first[0][2]) and not contains(
                    first[0][2], lambda t: type(t) is tuple and t and t[0] in ("it", "mu"))):
                msgs.append((first[0][-1], "reads the same position again in every iteration"))
            body = reads(e[2], depth + 1, R, msgs, c2, cleared)
            if body:
                out.append(("loop", e[1], body))
                cur[0] = None
        elif e[0] == "if":
            a = reads(e[2], depth, R, msgs, [None], cleared)
            b = reads(e[3], depth, R, msgs, [None], cleared)
            if a or b:
                out.append(("if", e[1], a, b))
                cur[0] = None
    return out


def show(path):
    s = ""
    for x in path:
        if x[0] == ".":
            s += ("." if s else "") + x[1]
        elif x[0] == "[":
            s += "[%s]" % pshow(x[1])
        elif x[0] == "D":
            t = x[1]
            if type(t) is tuple and len(t) > 1 and t[0] == "in":
                s += show(t[1]) + "->"
        elif x[0] == "P":
            s += x[1]
    return s or "this"


def pshow(p):
    if p.is_const():
        return str(p.cval())
    a = [model_atom(i) for i in p.atoms()]
    return "i" if any(type(x) is tuple and x and x[0] == "it" for x in a) else "?"


def model_atom(i):
    from poly import _atoms
    return _atoms[i]


def itemname(it, I):
    if it[0] == "ser":
        return vname(it[2])
    if it[0] == "sobj":
        return "the contents of " + vname(it[1])
    return "a repeated group" if it[0] == "loop" else "a conditional group"


def vname(v):
    """the place whose initial value v is, if any"""
    found = []

    def f(t):
        if type(t) is tuple and len(t) == 2 and t[0] == "in" and type(t[1]) is tuple:
            found.append(t[1])
        return False
    contains(v, f)
    return show(found[0]) if found else "a value"


def compare(I, w, r, sub, R, what, msgs):
    """w: items written, r: items read"""
    unk = []
    i = 0
    while i < len(w) and i < len(r):
        a, b = w[i], r[i]
        if a[0] == "ser" and b[0] == "r":
            sub[b[3]] = a[2]
            if a[1] != b[1] and not (a[1][0] == "bool" and b[1][0] == "int"):
                msgs.append((b[5], "%s is packed as %s but unpacked as %s" % (vname(a[2]), a[1], b[1])))
            elif b[2] is None:
                unk.append("destination at line %s" % b[5])
            elif b[2][0][0][0] == "V":
                # only used locally (a count): what it is compared with or counts is checked where it is used
                pass
            else:
                d = I.sym(("in", b[2][0]), b[4])
                if b[2][1] is not None:
                    base = I.sym(("in", b[2][0]), b[2][2] or "?")
                    d = I.rdplace(State(), Place(b[2][0], b[2][2], b[2][1], b[2][3]))
                c = "eq" if d is not None and d == a[2] else (cmpv(d, a[2]) if d is not None else "?")
                if c == "?" and d is not None and not vague(a[2]) and not vague(d) and vname(a[2]) != vname(d):
                    c = "ne"
                if c == "ne":
                    msgs.append((b[5], "the position where %s was saved is loaded into %s" % (vname(a[2]), show(b[2][0]))))
                elif c == "?":
                    unk.append("%s / %s" % (vname(a[2]), show(b[2][0])))
                else:
                    R.held("%s: %s is restored from where it was saved" % (what, vname(a[2])))
        elif a[0] == "sobj" and b[0] == "obj":
            if a[1] != b[1]:
                if vague(a[1]) or vague(b[1]):
                    unk.append("object")
                else:
                    msgs.append((b[2], "the position where %s was saved is loaded into %s" % (itemname(a, I), vname(b[1]))))
            else:
                R.held("%s: %s is restored from where it was saved" % (what, itemname(a, I)))
        elif a[0] == "loop" and b[0] == "loop":
            n = sub_rd(b[1], sub, I)
            c = cmpv(a[1], n) if isinstance(n, Poly) and isinstance(a[1], Poly) else "?"
            if c == "ne":
                msgs.append((None, "a group is repeated a different number of times when it is loaded"))
            elif c == "?":
                unk.append("number of repetitions")
            unk += compare(I, a[2], b[2], sub, R, what, msgs)
        elif a[0] == "if" and b[0] == "if" and a[1] == b[1]:
            unk += compare(I, a[2], b[2], sub, R, what, msgs)
            unk += compare(I, a[3], b[3], sub, R, what, msgs)
        else:
            if "if" in (a[0], b[0]):
                unk.append("conditional content")
                return unk
            msgs.append((b[5] if b[0] == "r" else None, "%s is saved where %s is loaded" % (
                itemname(a, I), "a repeated group" if b[0] == "loop" else vname(b[1]) if b[0] == "obj" else show(b[2][0]) if b[2] else "a value")))
            return unk
        i += 1
    if i < len(w) and w[i][0] != "if":
        msgs.append((None, "%s is saved but not loaded" % itemname(w[i], I)))
    if i < len(r) and r[i][0] != "if":
        b = r[i]
        msgs.append((b[5] if b[0] == "r" else None, "%s is loaded but not saved" % (
            "a repeated group" if b[0] == "loop" else vname(b[1]) if b[0] == "obj" else show(b[2][0]) if b[2] else "a value")))
    return unk


def through(I, st, r, msgs, indep=None):
    """values read into a local variable first: what becomes of them"""
    unk = []
    used = set()

    def counts(items):
        for it in items:
            if it[0] in ("loop", "if"):
                contains(it[1], lambda t: used.add(t) if type(t) is tuple and len(t) == 2 and t[0] == "rdv" else False)
                for b in it[2:]:
                    counts(b)
    counts(r)
    for it in r:
        if it[0] == "r" and it[2] is not None and it[2][0][0][0] != "V" and it[2][1] is None:
            got, val = I.read(st, it[2][0], it[4]), I.sym(("rdv", it[3]), it[4])
            if isinstance(got, (Poly, F)) and isinstance(val, Poly) and got != val and got != F_ne0(I, val) \
                    and not (isinstance(got, F) and got in (f_eq0(val - ONE), f_gt0(val, True))):
                if vague(got):
                    unk.append("value of %s" % show(it[2][0]))
                else:
                    msgs.append((it[5], "%s is changed after it is loaded" % show(it[2][0])))
            elif not isinstance(got, (Poly, F)) and got != val and cmpv(got, val) == "ne" and (
                    indep is None or it[2][0][-1][1] in indep):
                msgs.append((it[5], "%s is changed after it is loaded" % show(it[2][0])))
            continue
        if it[0] != "r" or it[2] is None or it[2][0][0][0] != "V":
            continue
        key = ("rdv", it[3])
        fields = []
        for g in st.mem.values():
            for path, v in g:
                if path[0][0] not in ("V", "R") and contains(v, lambda t: t == key):
                    fields.append((path, v))
        if not fields:
            if key not in used:
                unk.append("what is read at line %s is not used" % it[5])
            continue
        val = I.sym(key, it[4])
        for path, v in fields:
            if v == val or v == F_ne0(I, val) or isinstance(val, Poly) and v in (f_eq0(val - ONE), f_gt0(val, True)):
                continue
            if vague(v):
                unk.append("value of %s" % show(path))
            else:
                msgs.append((it[5], "%s is loaded with another value than the one that was saved" % show(path)))
    return unk


def F_ne0(I, v):
    """the truth value of what was read; also as a comparison with one"""
    return f_not(f_eq0(v)) if isinstance(v, Poly) else None


def sub_rd(n, sub, I):
    if not isinstance(n, Poly):
        return n

    def f(at):
        if type(at) is tuple and len(at) == 2 and at[0] in ("v", "int") and type(at[1]) is tuple and at[1][0] == "rdv":
            return sub.get(at[1][1])
        if type(at) is tuple and at and at[0] == "rdv":
            return sub.get(at[1])
        return None
    return subst(n, f)


# ------------------------------------------------------------------ the rule
def pairs(P):
    """[(class, save function, load function)] and overload pairs by the type packed"""
    cl, ov = {}, {}
    for fid, f in P.funcs.items():
        if f["n"] == "Serialize" and f.get("cls") and f.get("body"):
            if not f["params"]:
                cl.setdefault(f["qn"].rpartition("::")[0], [None, None])[0] = f
            elif len(f["params"]) == 1:
                ov.setdefault(f["params"][0]["t"].replace("const ", "").replace("&", "").strip(), [None, None])[0] = f
        if f["n"] == "Deserialize" and f.get("cls") and f.get("body"):
            if len(f["params"]) == 1:
                cl.setdefault(f["qn"].rpartition("::")[0], [None, None])[1] = f
            elif len(f["params"]) == 2:
                ov.setdefault(f["params"][1]["t"].replace("&", "").strip(), [None, None])[1] = f
    return cl, ov


def short(f):
    return "%s (%s:%s)" % (f["qn"], f.get("file"), f.get("l"))


def analyse(P, R, sv, ld, this, what, pargs=None):
    """compares what one function saves with what the other one loads; returns the items saved"""
    I = Pack(P)
    args = {}
    if pargs:
        args = {sv["params"][0]["n"]: Place(pargs, sv["params"][0]["t"].replace("const ", "").replace("&", "").strip())}
    st, v = I.call_entry(sv, this, args)
    if st is None:
        raise Unsure("the saving function does not return")
    w = content(v, replay(st.ev, {}))
    args = {}
    if pargs:
        p = ld["params"][1]
        args = {p["n"]: Place(pargs, p["t"].replace("&", "").strip())}
    st2, v2 = I.call_entry(ld, this, args)
    if st2 is None:
        raise Unsure("the loading function does not return")
    msgs = []
    cur = [I.sym(("in", (("P", ld["params"][0]["n"]),)), ld["params"][0]["t"])]
    r = reads(st2.ev, 0, R, msgs, cur, set())
    if cur[0] is not None and v2 != cur[0] and not vague(v2):
        msgs.append((ld.get("l"), "does not return the position where reading ended"))
    sub = {}
    unk = compare(I, w, r, sub, R, what, msgs)
    unk += through(I, st2, r, msgs, KIN.get("moordyn::" + what))
    for l, m in msgs:
        R.violation("%s|%s" % (what, m), "%s, %s%s" % (short(sv), short(ld), " line %s" % l if l else ""), m)
    for u in unk:
        R.unknown("%s: %s" % (what, u))
    return I, w


KIN = {"moordyn::Body": ("r7", "v6", "r_ves", "rd_ves"), "moordyn::Rod": ("r7", "v6", "r", "rd", "r_ves", "rd_ves"),
       "moordyn::Point": ("r", "rd", "r_ves", "rd_ves"), "moordyn::Line": ("r", "rd")}


def saved_paths(w, pre=()):
    """[(path saved, loops around it)]"""
    for it in w:
        if it[0] == "ser":
            found = []

            def f(t):
                if type(t) is tuple and len(t) == 2 and t[0] == "in" and type(t[1]) is tuple:
                    found.append(t[1])
                return False
            contains(it[2], f)
            for p in found[:1]:
                yield p, pre
        elif it[0] == "sobj":
            yield ("obj", it[1]), pre
        elif it[0] == "loop":
            for x in saved_paths(it[2], pre + (it[1],)):
                yield x
        elif it[0] == "if":
            for x in saved_paths(it[2], pre + ("?",)):
                yield x
            for x in saved_paths(it[3], pre + ("?",)):
                yield x


def run(P, R):
    R.rule("Each class's packing function is abstracted to the sequence of things it packs (with the loops around them) and its "
           "unpacking function to the sequence of places it fills; both sequences agree item by item in place, type and number "
           "of repetitions, and every reading starts where the previous one ended.")
    R.rule("The same for the overloads that pack one value: composition of unpacking with packing is the identity.")
    R.rule("The checkpoint of the system contains the integrator and every body, rod, point and line; the integrator's contains the "
           "clock and the position, velocity and acceleration of every object kind in every stored state and derivative; the "
           "objects' contain their kinematic state and the quantities the interface can change during a run.")
    cl, ov = pairs(P)
    this = (("T", "this"),)
    for c in sorted(cl):
        sv, ld = cl[c]
        if sv is None or ld is None:
            if c.endswith("::IO"):
                continue
            R.violation("%s|unpaired" % c, short(sv or ld), "%s overrides only one of the packing and unpacking functions" % c)
            continue
        try:
            I, w = analyse(P, R, sv, ld, this, c.split("::")[-1] if "<" not in c else c)
            R.count("classes")
        except (Unsure, Limit, Terminated) as x:
            R.unknown("%s: %s" % (c, x))
            continue
        try:
            coverage(P, R, c, I, w, sv)
        except Missing as x:
            R.unknown("%s: %s" % (c, x))
    for t in sorted(ov):
        sv, ld = ov[t]
        if sv is None or ld is None:
            continue
        what = "packing of %s" % t
        try:
            if kind(t)[0] in ("int", "flt"):
                leaf(P, R, t, sv, ld)
            else:
                analyse(P, R, sv, ld, this, what, (("P", "x"),))
            R.count("overloads")
        except (Unsure, Limit, Terminated, Missing) as x:
            R.unknown("%s: %s" % (what, x))
    for g in (files, memory):
        try:
            g(P, R)
        except (Unsure, Limit, Terminated) as x:
            R.unknown(str(x))
    R.floor("classes", 5)
    R.floor("overloads", 5)


def coverage(P, R, c, I, w, sv):
    this = Ref(I, (("T", "this"),), c)
    got = list(saved_paths(w))
    paths = {}
    for p, l in got:
        paths.setdefault(p, l)

    def need(ref, what, loops=None):
        if ref.path in paths:
            R.held("%s: %s is saved" % (c, what))
        elif not any("?" in l for _, l in got):
            R.violation("%s|missing %s" % (c, what), short(sv), "%s is not part of the checkpoint" % what)
    if c in KIN:
        for n in KIN[c]:
            try:
                need(getattr(this, n), n)
            except Missing as x:
                R.unknown(str(x))
        for n, e in sorted(settable(P).get(c, {}).items()):
            need(getattr(this, n), "%s (set by %s)" % (n, e))
    if c == "moordyn::MoorDyn":
        objs = [(p[1], l) for p, l in got if p[0] == "obj"]
        names = [vname(o) for o, l in objs]
        for n in ("_t_integrator", "BodyList", "RodList", "PointList", "LineList"):
            ref = getattr(this, n)
            hit = [l for (o, l), nm in zip(objs, names) if nm.split("[")[0].split("->")[0] == n]
            if not hit:
                R.violation("%s|missing %s" % (c, n), short(sv), "%s is not part of the checkpoint" % n)
            elif n != "_t_integrator" and not (len(hit[0]) == 1 and hit[0][0] == ref.size):
                if len(hit[0]) == 1 and not vague(hit[0][0]):
                    R.violation("%s|partial %s" % (c, n), short(sv), "not every object of %s is part of the checkpoint" % n)
                else:
                    R.unknown("%s: loop over %s" % (c, n))
            else:
                R.held("%s: %s is saved" % (c, n))
    if "TimeSchemeBase<" in c or "ABScheme<" in c:
        need(this.t, "the clock")
        for arr, parts in (("r", ("pos", "vel")), ("rd", ("vel", "acc"))):
            ref = getattr(this, arr)
            n = tinfo(ref.ty)[2]
            for k in range(n):
                for lst in ("bodies", "rods", "points", "lines"):
                    for part in parts:
                        # one element per object
                        want = getattr(getattr(ref[k], lst)[Poly.atom(("it", 0))], part).path
                        nm = "%s[%d].%s[i].%s" % (arr, k, lst, part)
                        if want in paths:
                            L = paths[want]
                            if len(L) == 1 and isinstance(L[0], Poly) and cmpv(L[0], getattr(this, lst).size) == "ne":
                                R.violation("%s|partial %s" % (c, nm), short(sv), "%s is not saved for every object" % nm)
                            else:
                                R.held("%s: %s is saved" % (c, nm))
                        elif not any("?" in l for _, l in got):
                            R.violation("%s|missing %s" % (c, nm), short(sv), "%s is not part of the checkpoint" % nm)
    if "ABScheme<" in c:
        need(this.n_steps, "n_steps")
    if "LocalTimeSchemeBase<" in c or "ABScheme<" in c:
        for n in ("lines", "points", "rods", "bodies"):
            try:
                need(getattr(this._dt, n), "the local time counter of the " + n)
            except Missing as x:
                R.unknown(str(x))


class Leaf(Api):
    """the overloads of one scalar: followed down to the code that packs a floating point number"""

    def want(self, f):
        return f["n"] not in ("pack754", "unpack754", "swap_endian")


def settable(P):
    """{class: {field: entry that changes it}} of the modelled objects"""
    from c13 import CLS
    out = {}
    for n, f in sorted(entries(P).items()):
        if "_Set" not in n or not f["params"]:
            continue
        c = CLS.get(f["params"][0]["t"])
        if c not in KIN:
            continue
        I = Api(P, inline_methods=lambda f: True)
        try:
            st, v = I.call_entry(f)
        except (Limit, Terminated):
            continue
        if st is None:
            continue
        root = ("D", ("in", (("P", f["params"][0]["n"]),)))
        for g in st.mem.values():
            for path, v in g:
                if path[0] == root and len(path) > 1 and path[1][0] == ".":
                    out.setdefault(c, {}).setdefault(path[1][1], n)
    return out


def leaf(P, R, t, sv, ld):
    """unpack(pack(x)) == x, up to: swapping bytes twice and unpack754 after pack754 (same widths) are identities"""
    I = Leaf(P, inline_methods=lambda f: True)
    this = (("T", "this"),)
    X = I.sym(("in", (("P", "x"),)), t)
    st, v = I.call_entry(sv, this, {sv["params"][0]["n"]: Place((("P", "x"),), t)})
    if st is None or not isinstance(v, Poly):
        raise Unsure("packing of %s" % t)
    inp = ld["params"][0]["n"]
    st2, v2 = I.call_entry(ld, this, {ld["params"][1]["n"]: Place((("P", "y"),), t)})
    if st2 is None:
        raise Unsure("unpacking of %s" % t)
    out = I.num(I.read(st2, (("P", "y"),), t))
    word = ("in", (("D", ("in", (("P", inp),))), ("[", ZERO)))

    def isword(at):
        return contains(at, lambda z: z == word) and not any(
            type(z) is tuple and z and z[0] in ("call", "ite") for z in (at,))

    def f(at):
        if type(at) is tuple and len(at) == 2 and at[1] == word:
            return v
        if at == word:
            return v
        return None
    comp = subst_deep(out, f)
    comp = unfold(comp)
    c = cmpv(comp, X, tuple(k for k in VAGUE if k != "call"))
    if c == "eq":
        R.held("packing of %s: unpacking gives the packed value back" % t)
    elif c == "ne" and not vague(comp, tuple(k for k in VAGUE if k != "call")):
        R.violation("packing of %s|value" % t, "%s, %s" % (short(sv), short(ld)), "unpacking a packed %s does not give the value back" % t)
    else:
        R.unknown("packing of %s" % t)
    # one word is consumed
    want = Ptr((("D", ("in", (("P", inp),))), ("[", ONE)))
    if v2 == want:
        R.held("unpacking of %s consumes one word" % t)
    elif isinstance(v2, Ptr) and len(v2.v[0]) == 2 and v2.v[0][0] == want.v[0][0] and not vague(v2):
        R.violation("packing of %s|step" % t, short(ld), "unpacking a %s does not continue at the next word" % t)
    else:
        R.unknown("unpacking of %s: the position returned" % t)
    return comp


class FileIO(Pack):
    def __init__(self, P):
        super().__init__(P)
        self.hooks["*::write"] = FileIO.h_write
        self.hooks["*::read"] = FileIO.h_read
        self.hooks["*::memcpy"] = FileIO.h_memcpy
        self.hooks["memcpy"] = FileIO.h_memcpy
        self.hooks["std::memcpy"] = FileIO.h_memcpy

    def h_write(self, e, st, fr):
        if len(e["a"]) != 2:
            return None
        p, n = self.argvals(e, st, fr)
        v = None
        if isinstance(p, Ptr):
            ty = self.types.get(p.v[0])
            v = self.read(st, p.v[0], ty) if ty else None
        st.ev = st.ev + [("io", n, v, e.get("l"))]
        return UNDEF

    def h_read(self, e, st, fr):
        if len(e["a"]) != 2:
            return None
        p, n = self.argvals(e, st, fr)
        v = None
        if isinstance(p, Ptr):
            ty = self.types.get(p.v[0])
            if ty and tinfo(ty)[0] == "int":
                self.rid += 1
                v = self.sym(("rdv", self.rid), ty)
                self.write(st, p.v[0], v, ty)
        st.ev = st.ev + [("io", n, v, e.get("l"))]
        return UNDEF

    def h_memcpy(self, e, st, fr):
        a = self.argvals(e, st, fr)
        st.ev = st.ev + [("memcpy", tuple(a), e.get("l"))]
        return UNDEF


def ios(ev):
    out = []
    for e in ev:
        if e[0] == "io":
            out.append(e)
        elif e[0] == "loop":
            b = ios(e[2])
            if b:
                out.append(("loop", e[1], b))
        elif e[0] == "if":
            a, b = ios(e[2]), ios(e[3])
            if a or b:
                out += a if not b else b if not a else [("?",)]
    return out


def files(P, R):
    fs = {f["n"]: f for f in P.funcs.values() if f["qn"] in ("moordyn::io::IO::Save", "moordyn::io::IO::Load") and f.get("body")}
    if len(fs) != 2:
        R.unknown("saving to and loading from files")
        return
    this = (("T", "this"),)
    I = FileIO(P)
    st, _ = I.call_entry(fs["Save"], this)
    J = FileIO(P)
    st2, _ = J.call_entry(fs["Load"], this)
    if st is None or st2 is None:
        raise Unsure("Save and Load")
    w, r = ios(st.ev), ios(st2.ev)

    def hd(x):
        out = []
        for e in x:
            if e[0] == "io" and isinstance(e[1], Poly) and e[1].is_const():
                out.append(e)
            else:
                break
        return out
    hw, hr = hd(w), hd(r)
    where = "%s, %s" % (short(fs["Save"]), short(fs["Load"]))
    if not hw or not hr or len(w) == len(hw) or len(r) == len(hr):
        raise Unsure("the layout of the file")
    sw, sr = [int(e[1].cval()) for e in hw], [int(e[1].cval()) for e in hr]
    if sum(sw) != sum(sr) or sw[-1] != sr[-1]:
        R.violation("file|header", where, "the header that is read (%s bytes) is not the one that is written (%s)" % (sr, sw))
    else:
        R.held("the file's header is read as it is written (%d bytes)" % sum(sw))
    # the number of words
    body = w[len(hw):]
    nw = hw[-1][2]
    if len(body) == 1 and body[0][0] == "loop" and len(body[0][2]) == 1 and body[0][2][0][0] == "io" and isinstance(nw, Poly):
        words = body[0][1]
        per = body[0][2][0][1]
        if cmpv(words, nw) == "ne" or (isinstance(per, Poly) and per.is_const() and per.cval() != 8):
            R.violation("file|count", where, "the number of words in the file's header is not the number of words that follow")
        elif cmpv(words, nw) == "eq":
            R.held("the header tells the number of words that follow")
    else:
        R.unknown("the payload of the file")
    pay = r[len(hr):]
    nr = hr[-1][2]
    if len(pay) == 1 and pay[0][0] == "io" and isinstance(nr, Poly):
        c = cmpv(pay[0][1], nr * C(8))
        if c == "ne":
            R.violation("file|payload", where, "the number of bytes loaded is not eight per word of the header")
        elif c == "eq":
            R.held("the payload loaded is eight bytes per word of the header")
    # the size check
    if isinstance(nr, Poly):
        key = [model_atom(i) for i in nr.atoms()]
        for th in J.throws:
            for c in th[0]:
                for g in (c.v if c.k in ("and", "or") else (c,)):
                    if g.k in ("eq", "ne") or (g.k == "not" and getattr(g.v, "k", "") == "eq"):
                        q = g.v if g.k != "not" else g.v.v
                        if not isinstance(q, Poly):
                            continue
                        a = [model_atom(i) for i in q.atoms()]
                        if key[0] in a and len(a) == 2:
                            kk = q.t.get((), 0)
                            cf = [v for m, v in q.t.items() if m and model_atom(m[0][0] if type(m[0]) is tuple else m[0]) == key[0]]
                            if cf and cf[0] != 0:
                                H = abs(Fraction(kk) * 8 / cf[0])
                                if H != sum(sr):
                                    R.violation("file|size", where, "the size expected of a file assumes a header of %s bytes, not %d" % (H, sum(sr)))
                                else:
                                    R.held("the size expected of a file fits its header")


def memory(P, R):
    f = entries(P).get("MoorDyn_Serialize")
    if f is None or len(f["params"]) != 3:
        R.unknown("MoorDyn_Serialize")
        return
    I = FileIO(P)
    st, _ = I.call_entry(f)
    pn, dn = f["params"][1]["n"], f["params"][2]["n"]
    for e, _ in flat_events(st.ev):
        if e[0] == "store" and e[1][0] == ("D", ("in", (("P", pn),))):
            v = e[2]
            size_is(R, v, "the size reported", f)
        if e[0] == "memcpy" and isinstance(e[1][0], PtrT) and len(e[1]) == 3:
            size_is(R, e[1][2], "the size copied", f)


def size_is(R, v, what, f):
    if not isinstance(v, Poly):
        R.unknown("MoorDyn_Serialize: " + what)
        return
    a = [model_atom(i) for i in v.atoms()]
    if len(a) == 1 and type(a[0]) is tuple and contains(a[0], lambda t: type(t) is tuple and t and t[0] == "ssize"):
        if v == Poly.atom(a[0]) * C(8):
            R.held("MoorDyn_Serialize: %s is eight bytes per word" % what)
        else:
            R.violation("MoorDyn_Serialize|%s" % what, short(f), "%s is not the number of bytes of the packed data" % what)
    else:
        R.unknown("MoorDyn_Serialize: " + what)


def subst_deep(p, f):
    return subst(p, f)


def unfold(p):
    """cancel swap(swap(x)), unpack(pack(x))"""
    for _ in range(4):
        def g(at):
            c = callof(at)
            if c is None:
                return None
            qn, args = c
            if qn.endswith("swap_endian") and len(args) == 1:
                d = inner(args[0])
                if d is not None and d[0].endswith("swap_endian"):
                    return d[1][0]
            if qn.endswith("unpack754") and len(args) == 3:
                d = inner(args[0])
                if d is not None and d[0].endswith("::pack754") or d is not None and d[0] == "pack754":
                    if d[1][1:] == args[1:]:
                        return d[1][0]
            return None
        q = subst(p, g)
        if q == p:
            break
        p = q
    # both branches of the byte order
    for c in conds(p):
        a, b = unfold1(deep_assume(p, c)), unfold1(deep_assume(p, f_not(c)))
        if a == b:
            return a
    return p


def unfold1(p):
    def g(at):
        c = callof(at)
        if c is None:
            return None
        qn, args = c
        d = inner(unfold1(args[0]) if args and isinstance(args[0], Poly) else None)
        if d is None:
            return None
        if qn.endswith("swap_endian") and d[0].endswith("swap_endian"):
            return unfold1(d[1][0])
        if qn.endswith("unpack754") and d[0].rpartition("::")[2] == "pack754" and d[1][1:] == args[1:]:
            return d[1][0]
        return None
    return subst(p, g)


def conds(p):
    out = []

    def f(t):
        if type(t) is tuple and t and t[0] == "ite" and t[1] not in out:
            out.append(t[1])
        return False
    contains(p, f)
    return out


def callof(at):
    """(name, arguments) of an atom that is the result of a call"""
    t = at
    if type(t) is tuple and len(t) == 2 and type(t[1]) is tuple and t[1] and t[1][0] == "call":
        t = t[1]
    if type(t) is tuple and t and t[0] == "call" and len(t) >= 5:
        return t[1], t[4]
    return None


def inner(p):
    if not isinstance(p, Poly):
        return None
    at = list(p.atoms())
    if len(at) == 1 and p == Poly.atom(model_atom(at[0])):
        return callof(model_atom(at[0]))
    return None
