"""Helpers shared by the rules."""
from absint import *
from poly import _atoms, _facts as poly_facts

VAGUE = ("fresh", "loopout", "mu", "call", "out", "undef", "eop", "matov", "clo", "havoc", "trips", "opaque", "stateop", "sel")


def vague(x, kinds=VAGUE):
    """does x depend on something the analysis could not follow?"""
    if callable(kinds):
        return contains(x, kinds)
    return contains(x, lambda t: type(t) is tuple and len(t) > 0 and t[0] in kinds)


def cmpv(a, b, kinds=VAGUE):
    """'eq' / 'ne' (both fully resolved and different) / '?'"""
    if isinstance(a, Mat) and isinstance(b, Mat):
        if len(a.e) != len(b.e):
            return "ne"
        rs = [cmpv(x, y, kinds) for x, y in zip(a.e, b.e)]
        return "ne" if "ne" in rs else "?" if "?" in rs else "eq"
    if isinstance(a, Quat) and isinstance(b, Quat):
        rs = [cmpv(x, y, kinds) for x, y in zip(a.e, b.e)]
        return "ne" if "ne" in rs else "?" if "?" in rs else "eq"
    if a == b:
        return "eq"
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = a - b
        if is_zero(d):
            return "eq"
        d = canon(d)
        if is_zero(d):
            return "eq"
        if find_ite(d) is not None:
            bad = False
            for cs, leaf in cases(d):
                if not is_zero(leaf) and find_ite(leaf) is None and consistent(cs):
                    bad = True
                elif find_ite(leaf) is not None:
                    return "?"
            if not bad:
                return "eq"
        if vague(d, kinds):
            return "?"
        return "ne"
    if vague(a, kinds) or vague(b, kinds):
        return "?"
    return "ne"


def consistent(cs):
    for i, c in enumerate(cs):
        facts = {}
        for j, g in enumerate(cs):
            if j != i:
                facts.update({k: v for k, v in poly_facts(g).items()})
        if feval(c, facts).k == "N":
            return False
    return True


def find_ite(p):
    """some ite condition occurring at the top level of p, or None"""
    for a in p.atoms():
        at = _atoms[a]
        if type(at) is tuple and at and at[0] == "ite":
            return at[1]
    return None


def cases(p, limit=64):
    """[(tuple of conditions, leaf poly)] over the top-level conditionals of p"""
    out = []
    work = [((), p)]
    while work:
        cs, q = work.pop()
        c = find_ite(q)
        if c is None or len(out) + len(work) > limit:
            out.append((cs, q))
            continue
        for cc in (c, f_not(c)):
            q2 = assume(q, cc)
            if q2 == q:
                # force this conditional
                def f(at):
                    if type(at) is tuple and at and at[0] == "ite" and at[1] == c:
                        return at[2] if cc is c else at[3]
                    return None
                q2 = subst(q, f)
            work.append((cs + (cc,), q2))
    return out


def entails_ge0(p, facts):
    """p >= 0 from constants and from facts (gt/ge formulas) whose polynomial is p up to a positive factor"""
    if p.is_const():
        return p.cval() >= 0
    for g in facts:
        if g.k == "and":
            if entails_ge0(p, g.v):
                return True
        if g.k in ("gt", "ge"):
            m, c = lead(g.v)
            k = p.t.get(m)
            if k is not None and k / c > 0:
                r = p - g.v.scale(k / c)
                if r.is_const() and r.cval() >= 0:
                    return True
    return False


def flat_events(ev, pre=()):
    """yield (event, enclosing tuple of ('loop', n)/('if', cond)) in order"""
    for e in ev:
        if e[0] == "loop":
            for x in flat_events(e[2], pre + (("loop", e[1], e[3] if len(e) > 3 else None),)):
                yield x
        elif e[0] == "if":
            for x in flat_events(e[2], pre + (("if", e[1]),)):
                yield x
            for x in flat_events(e[3], pre + (("if", f_not(e[1])),)):
                yield x
        else:
            yield e, pre


def this_state(I, f, cls=None):
    return (("T", "this"),)


def enum_vals(P, cls):
    """{enumerator: value} of the enumerations declared in a class"""
    out = {}
    for e in P.enums.values():
        if e["qn"].startswith(cls + "::"):
            for c in e["e"]:
                out.setdefault(c["n"], c["v"])
    return out


def calls(x, suffix):
    """does the term contain the result of a call of a function whose name ends so?"""
    return contains(x, lambda t: type(t) is tuple and len(t) > 1 and t[0] == "call" and type(t[1]) is str and t[1].endswith(suffix))


def deep_assume(p, c):
    """like assume, also inside the arguments of functions"""
    facts = poly_facts(c)

    def f(at):
        if type(at) is tuple and at and at[0] == "ite":
            v = feval(at[1], facts)
            if v.k == "T":
                return deep_assume(at[2], c)
            if v.k == "N":
                return deep_assume(at[3], c)
        return None
    return subst(p, f)
