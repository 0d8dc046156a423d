"""C16: systems are independent of each other and of anything but their inputs."""
from model import *

SINK = ("basic_ostream", "basic_streambuf", "null_out_buf", "basic_ofstream", "mutex", "once_flag", "atomic_flag")
# library functions whose result, or effect, is shared by the whole process
PROCESS = {
    "rand": "a process-wide random generator", "srand": "a process-wide random generator", "random": "a process-wide random generator",
    "drand48": "a process-wide random generator", "strtok": "the process-wide strtok position", "setlocale": "the process locale",
    "std::locale::global": "the process locale", "chdir": "the working directory", "putenv": "the environment", "setenv": "the environment",
    "std::rand": "a process-wide random generator", "std::srand": "a process-wide random generator", "std::setlocale": "the process locale",
    "std::strtok": "the process-wide strtok position", "std::random_device::operator()": "a random device",
    "time": "the wall clock", "std::time": "the wall clock", "clock": "the processor clock", "std::clock": "the processor clock",
    "gettimeofday": "the wall clock", "std::filesystem::current_path": "the working directory",
    "std::chrono::_V2::system_clock::now": "the wall clock", "std::chrono::_V2::steady_clock::now": "the processor clock",
    "std::chrono::_V2::high_resolution_clock::now": "the processor clock", "fesetround": "the floating point mode", "std::fesetround": "the floating point mode",
}
CLOCKS = ("the wall clock", "the processor clock")


def loc(f, n):
    return "%s:%s (%s)" % (f.get("file"), n.get("l", f.get("l")), f["qn"])


def children(n):
    for k, v in n.items():
        if k in ("t", "ts"):
            continue
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def uses(f):
    """(node, chain of (key, parent) from the nearest parent outwards) of every reference to a variable with static storage"""
    out = []

    def go(n, chain):
        if n.get("k") == "ref" and n.get("dk") in ("slocal", "global"):
            out.append((n, chain))
        for k, c in children(n):
            go(c, ((k, n),) + chain)
    for b in [f.get("body")] + [i for i in f.get("inits", ()) or ()]:
        if isinstance(b, dict):
            go(b, ())
    return out


def effect(n, chain):
    """what happens to the variable: 'r' its value is used, 'w' it is modified, 'rw', 'u' updated in place with the result dropped"""
    for i, (k, p) in enumerate(chain):
        pk = p.get("k")
        if pk == "icast" and p.get("ck") in ("LValueToRValue",):
            # x = x + 1: only an update of itself?
            return "r"
        if pk in ("icast", "cast", "paren", "sub", "mem", "other"):
            if pk == "cast" and p.get("ck") == "ToVoid":
                return ""
            if pk == "sub" and k == "i":
                return "r"
            if pk == "mem" and p.get("arrow"):
                return "r"
            continue
        if pk == "asg":
            if k == "x":
                if p["op"] == "=":
                    return "w"
                used = i + 1 < len(chain) and chain[i + 1][1].get("k") not in ("blk", "expr", "for", "if", None, "while", "rfor", "do", "case", "default")
                return "rw" if used else "w"
            return "r"
        if pk == "un":
            if p["op"] in ("++", "--"):
                used = i + 1 < len(chain) and chain[i + 1][1].get("k") in ("bin", "asg", "call", "sub", "cond", "icast", "ctor", "ret")
                return "rw" if used else "w"
            if p["op"] == "&":
                return "rw" if not const_ptr_use(chain[i + 1:]) else "r"
            return "r"
        if pk in ("call",):
            if k == "o":
                if p.get("op") == "=":
                    return "w"
                if p.get("arrow") or p.get("const"):
                    return "r"
                return "rw"
            a = p.get("a") or []
            j = next((j for j, x in enumerate(a) if contains_node(x, n)), None)
            rp = p.get("rp") or []
            m = rp[j] if j is not None and j < len(rp) else 0
            return "rw" if m in (2, 3, 5) else "r"
        if pk == "ctor":
            return "r" if p.get("copy") else "rw"
        if pk in ("var", "decl"):
            t = p.get("t") or ""
            return "rw" if t.endswith("&") and not t.startswith("const ") else "r"
        if pk in ("ret", "bin", "cond", "if", "while", "for", "sw", "list", "do", "rfor"):
            return "r"
    return ""


def const_ptr_use(chain):
    for k, p in chain:
        if p.get("k") == "icast":
            if "const" in (p.get("t") or ""):
                return True
            continue
        break
    return False


def contains_node(x, n):
    if x is n:
        return True
    return any(contains_node(c, n) for _, c in children(x))


def depends(n, shared):
    """first reference of an initialiser that is not a constant"""
    if n.get("k") == "lambda":
        return None
    if n.get("k") == "this":
        return "this"
    if n.get("k") == "ref" and n.get("dk") in ("param", "local"):
        return n["n"]
    if n.get("k") == "ref" and n.get("dk") in ("slocal", "global") and key(n) in shared:
        return n["n"]
    for _, c in children(n):
        r = depends(c, shared)
        if r:
            return r
    return None


def key(n):
    return n.get("gid") or n.get("id")


def run(P, R):
    R.rule("Every variable with static storage (global, class static, function static) of the sources is constant, or never modified, "
           "or a stream that only receives text, or the default instance of the version 1 interface; constant function statics are "
           "initialised from constants.")
    R.rule("The default instance is not reachable from the functions that take a system handle.")
    R.rule("No function reachable from the interface uses a process-wide generator, clock, locale, environment or working directory.")
    gl = {}
    for g in P.globals.values() if isinstance(P.globals, dict) else P.globals:
        gl.setdefault(g["gid"] or g["id"], g)
    byid = {}
    for g in gl.values():
        byid.setdefault((g.get("file"), g["n"], g.get("slocal")), g)
    fx = {}
    for f in P.funcs.values():
        if not f.get("body"):
            continue
        for n, ch in uses(f):
            fx.setdefault((n["n"], n.get("gid")), []).append((f, n, effect(n, ch)))
    mutable = set()
    single = None
    for g in gl.values():
        if g.get("slocal"):
            us = [u for (nm, gid), l in fx.items() if nm == g["n"] and gid in (None, g["gid"]) for u in l
                  if u[1].get("dk") == "slocal" and u[0].get("file") == g["file"]]
        else:
            us = [u for (nm, gid), l in fx.items() if gid == g["gid"] for u in l]
        g["_us"] = us
        w = [u for u in us if "w" in u[2]]
        if w and not g.get("const"):
            mutable.add(g["gid"])
    for g in sorted(gl.values(), key=lambda g: (g["file"], g["l"])):
        if not g["file"].endswith((".cpp", ".hpp", ".h", ".c")) or "/Eigen/" in g["file"]:
            continue
        R.count("variables with static storage")
        what = "%s:%s %s" % (g["file"], g["l"], g["qn"])
        us = g["_us"]
        t = g["t"]
        base = t.replace("&", "").replace("const ", "").strip()
        if any(s in base for s in SINK):
            R.held("%s only receives text" % what)
            continue
        w = [u for u in us if "w" in u[2]]
        r = [u for u in us if "r" in u[2]]
        if g.get("slocal") and g.get("i"):
            d = depends(g["i"], mutable)
            if d:
                if r or w:
                    R.violation("%s|%s initialised once" % (g["file"], g["n"]), what,
                                "the function static %s is initialised once, from %s of the first call, and then shared by every system" % (g["n"], d))
                    continue
        if g.get("const") or not w:
            R.held("%s is never modified" % what)
            continue
        if not r:
            R.held("%s is never used" % what)
            continue
        if is_handle(t):
            single = g
            continue
        f, n, _ = w[0]
        R.violation("%s|%s shared" % (g["file"], g["n"]), "%s, modified at %s" % (what, loc(f, n)),
                    "%s is shared by every system and modified in %s" % (g["n"], f["qn"]))
    # the default instance
    graph = {}
    for fid, f in P.funcs.items():
        if f.get("body"):
            s = graph.setdefault(fid, set())
            for e in walk(f["body"]):
                if e.get("k") in ("call", "ctor") and e.get("fn"):
                    s.add(e["fn"])
                    if e.get("virt"):
                        s.update(P.all_overriders(e["fn"]) if callable(P.all_overriders) else ())
            for i in f.get("inits", ()) or ():
                for e in walk(i):
                    if e.get("k") in ("call", "ctor") and e.get("fn"):
                        s.add(e["fn"])

    def reach(roots):
        seen, work = {}, [(r, None) for r in roots]
        while work:
            x, by = work.pop()
            if x in seen:
                continue
            seen[x] = by
            for y in graph.get(x, ()):
                if y in P.funcs and y not in seen:
                    work.append((y, x))
        return seen
    ext = [fid for fid, f in P.funcs.items() if f.get("externC") and f.get("body") and not f.get("static")]
    v2 = [x for x in ext if P.funcs[x]["n"].startswith("MoorDyn_")]
    R.count("entry points", len(ext))
    r2 = reach(v2)
    if single is not None:
        bad = {}
        for f, n, e in single["_us"]:
            if f.get("fn") in r2 or any(P.funcs[x] is f for x in r2 if x in P.funcs):
                bad.setdefault(f["qn"], (f, n))
        for q, (f, n) in sorted(bad.items()):
            R.violation("%s|%s" % (single["n"], q), loc(f, n), "the default instance %s is used by %s, which the functions that take a handle can reach" % (single["n"], q))
        if not bad:
            R.held("%s is only used by the functions without a handle" % single["qn"])
    for x in sorted(reach(ext), key=lambda x: P.funcs[x]["qn"]):
        f = P.funcs[x]
        if not f.get("body"):
            continue
        R.count("reachable functions")
        for e in walk(f["body"]):
            if e.get("k") == "call" and not e.get("in"):
                q = e.get("qn") or ""
                if q in PROCESS:
                    if PROCESS[q] in CLOCKS and only_printed(f, e):
                        continue
                    R.violation("%s|%s" % (f["qn"], q), loc(f, e), "%s depends on %s" % (f["qn"], PROCESS[q]))
            if e.get("k") == "rfor":
                t = ((e.get("r") or e.get("range") or {}).get("t") or "")
                if pointer_keyed(t):
                    R.violation("%s|order" % f["qn"], loc(f, e), "%s goes through a container in the order of addresses" % f["qn"])
    R.held("no process-wide state in the functions the interface can reach")
    R.floor("variables with static storage", 5)
    R.floor("reachable functions", 100)


def only_printed(f, call):
    """the clock reading only goes to a stream"""
    def go(n, printed):
        if n is call:
            return printed
        for _, c in children(n):
            r = go(c, printed or (n.get("k") == "call" and n.get("op") == "<<"))
            if r is not None:
                return r
        return None
    return bool(go(f["body"], False))


def pointer_keyed(t):
    import re
    m = re.match(r"(?:const )?std::(?:unordered_)?(?:multi)?(?:map|set)<([^,<>]*)", t)
    return bool(m and m.group(1).strip().endswith("*"))


def is_handle(t):
    return t.replace("const ", "").strip() in ("__MoorDyn *", "MoorDyn")
