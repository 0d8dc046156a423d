"""C12: every failure reaches the caller as the error code of its kind."""
from model import *
from api import *

CODE = {"moordyn::input_file_error": -1, "moordyn::output_file_error": -2, "moordyn::input_error": -3,
        "moordyn::nan_error": -4, "moordyn::mem_error": -5, "moordyn::invalid_value_error": -6,
        "moordyn::non_implemented_error": -7, "moordyn::unhandled_error": -255}
OTHER = -255
# entry points whose result is not an error code: a count, a value, or any nonzero (they only see a null handle)
VALUES = {"externalWaveKinInit", "GetFairTen"}
ANY = {"MoorDynInit"}


def code_of(E, t):
    for b in E.bases(t):
        if b in CODE:
            return CODE[b]
    return OTHER


def setf(v, a, val):
    c = a if val else f_not(a)
    if isinstance(v, Poly):
        return assume(v, c)
    if isinstance(v, IteV):
        k = feval(v.v[0], poly_facts(c))
        if k.k == "T":
            return setf(v.v[1], a, val)
        if k.k == "N":
            return setf(v.v[2], a, val)
        x, y = setf(v.v[1], a, val), setf(v.v[2], a, val)
        return x if x == y else IteV(k, x, y)
    return v


def under(v, true_atom, atoms):
    """the value with exactly one throw condition true (or none)"""
    for a in atoms:
        if a is not true_atom:
            v = setf(v, a, False)
    return setf(v, true_atom, True) if true_atom is not None else v


def nulls(f):
    return [f_atom(("isnull", ("in", (("P", p["n"]),)))) for p in f["params"] if p["t"].endswith("*")]


def leaves(v):
    if isinstance(v, IteV):
        return leaves(v.v[1]) + leaves(v.v[2])
    if isinstance(v, Poly):
        return [l for _, l in cases(v)]
    return [v]


def isnull(v):
    return isinstance(v, Null) or isinstance(v, Poly) and v.is_const() and v.cval() == 0


def run(P, R):
    E = Escape(P)
    R.rule("Abstract execution of every C entry point with exceptional control flow: each call that is not inlined may throw "
           "each exception type that the escape analysis says it can, and control continues in the handler that catches it. "
           "With exactly one such throw the returned value must be the code of that type (a null handle for entry points that "
           "return handles).")
    R.rule("For every method of the system that returns an error code and contains handlers: a throw of each type that can "
           "reach the handlers makes the method return the code of its type.")
    R.rule("An error code that a method of the system gets from another one is passed on: with the callee's result replaced by "
           "an arbitrary error code, some exit returns that code.")
    for n, f in sorted(entries(P).items()):
        entry(P, R, E, n, f)
    for fid, f in sorted(P.funcs.items()):
        if f.get("cls") == "moordyn::MoorDyn" and f["rt"] == "int" and (
                any(x["k"] == "try" for x in walk(f["body"])) or err_calls(P, f)):
            method(P, R, E, f)
    R.floor("throwing calls", 30)


def entry(P, R, E, n, f):
    I = XApi(P, E)
    try:
        st, v = I.call_entry(f)
    except Limit as x:
        R.unknown("%s: %s" % (n, x))
        return
    if st is None or v is None or n in VALUES:
        return
    for a in nulls(f):
        v = setf(v, a, False)
    isint = tinfo(f["rt"])[0] == "int"
    if not isint and not f["rt"].endswith("*"):
        return
    atoms = [s[4] for s in I.sites]
    nn = {}
    for a in nulls(f):
        nn.update(poly_facts(f_not(a)))
    for i, t, q, l, a, fn, pc in I.sites:
        if feval(f_and(*pc), nn).k == "N":
            continue
        R.count("throwing calls")
        want = code_of(E, t)
        name = "%s: %s from %s" % (n, t.replace("moordyn::", ""), q.replace("moordyn::", ""))
        ls = leaves(under(v, a, atoms))
        key = "%s after %s of %s" % (n, t.replace("moordyn::", ""), q.replace("moordyn::", ""))
        good = [x for x in ls if (isnull(x) if not isint else isinstance(x, Poly) and x.is_const() and
                                  (x.cval() != 0 if n in ANY else x.cval() == want))]
        const = [x for x in ls if isinstance(x, (Poly, Null)) and (not isinstance(x, Poly) or x.is_const())]
        if good:
            R.held(name)
        elif len(const) == len(ls) or not isint:
            R.violation(key, "%s:%s" % (f["file"], l), "when %s throws %s, %s returns %s instead of %s"
                        % (q, t, n, "/".join(show(x) if isinstance(x, Poly) else str(x)[:60] for x in ls[:4]),
                           want if isint else "a null handle"))
        else:
            R.unknown("%s: returns %s" % (name, str(ls[0])[:100]))


def err_fns(P):
    """methods of the system that return an error code (some return statement yields a negative constant,
    or the result of such a method)"""
    if not hasattr(P, "_errfns"):
        out = set()
        ms = [f for f in P.funcs.values() if f.get("cls") == "moordyn::MoorDyn" and f["rt"] == "int"]
        while True:
            new = set(out)
            for f in ms:
                for x in walk(f["body"]):
                    if x["k"] == "try" or x["k"] == "ret" and any(y.get("cv", 0) is not None and y.get("cv", 0) < 0 or
                                                                  y["k"] == "call" and y.get("qn") in out for y in walk(x)):
                        new.add(f["qn"])
            if new == out:
                break
            out = new
        P._errfns = out
    return P._errfns


def err_calls(P, f):
    efs = err_fns(P)
    return sorted({x["qn"] for x in walk(f["body"]) if x["k"] == "call" and x.get("qn") in efs})


def callees(P, R, f, n, I, exits, body):
    for q in err_calls(P, body):
        if q == f["qn"] or q.endswith("::findStartOfSection"):
            continue            # recursion; a line number, not an error
        R.count("calls returning error codes")

        def sub(at):
            if type(at) is tuple and at and at[0] == "v" and type(at[1]) is tuple:
                at = at[1]
            return C(-99) if type(at) is tuple and at and at[0] == "call" and at[1] == q else None
        seen, ok, other = False, False, False
        for x, w in exits:
            for l in leaves(w):
                if not isinstance(l, Poly):
                    continue
                if contains(l, lambda t: type(t) is tuple and len(t) > 1 and t[0] == "call" and t[1] == q):
                    seen = True
                l = subst(l, sub)
                if l.is_const() and l.cval() == -99:
                    ok = True
                elif vague(l):
                    other = True
        if not ok:
            # the result may be looked at in the condition of an exit that returns another error
            for x, w in exits:
                if contains(f_and(*x.pc), lambda t: type(t) is tuple and len(t) > 1 and t[0] == "call" and t[1] == q):
                    seen = True
        name = "%s passes on the error code of %s" % (n, q.replace("moordyn::", ""))
        if ok:
            R.held(name)
        elif other and seen:
            R.unknown(name)
        else:
            R.violation(name, loc(f), "the error code that %s returns never becomes the result of %s" % (q, f["qn"]))


def suffix(f):
    """the declarations and the part of a long function from its first guarded statement on"""
    ss = f["body"]["s"]
    for i, s in enumerate(ss):
        if any(x["k"] == "try" for x in walk(s)):
            return dict(f, body=dict(f["body"], s=[d for d in ss[:i] if d["k"] == "decl"] + ss[i:]))


def method(P, R, E, f):
    n = f["qn"].replace("moordyn::", "", 1)
    body = suffix(f) if sum(1 for x in walk(f["body"])) > 3000 else f
    I = XOrch(P, E)
    I.top = "none"
    I.deadline = time.time() + 60
    I.dyn[(("T", "this"),)] = "moordyn::MoorDyn"
    try:
        st, v = I.call_entry(body, this=(("T", "this"),))
    except Limit as x:
        R.unknown("%s: %s" % (n, x))
        return
    exits = I.exits or []
    if not exits:
        R.unknown("%s: no exits" % n)
        return
    atoms = [s[4] for s in I.sites]
    callees(P, R, f, n, I, exits, body)
    for i, t, what, l, a, fn, pc in I.sites:
        if not t.startswith("moordyn::"):
            continue            # a token that is not a number is handled locally (it may be a file name)
        R.count("throwing handlers")
        want = code_of(E, t)
        name = "%s: %s thrown in the guarded code at line %s" % (n, t.replace("moordyn::", ""), l)
        ls, base = [], []
        for x, w in exits:
            pcf = f_and(*x.pc)
            k = feval(pcf, poly_facts(a))
            if k.k != "N":
                ls += leaves(under(w, a, atoms))
            base += leaves(under(w, None, atoms))
        if any(isinstance(x, Poly) and x.is_const() and x.cval() == want for x in ls):
            R.held(name)
        elif any(vague(x) and x not in base for x in ls):
            R.unknown(name)
        else:
            R.violation("%s after %s" % (n, t.replace("moordyn::", "")), "%s:%s" % (f["file"], l),
                        "%s (%s) does not make the function return %d" % (t, what, want))
