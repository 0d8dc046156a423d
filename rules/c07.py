"""C07: the algebra on system states works component by component on every object."""
from model import *
from algebra import *

OPS = ("operator+", "operator-", "operator*", "operator=", "Mix")
# leaf of the result <- leaf of the operands
RENAME = {"operator*": {"pos": "vel", "vel": "acc"}}


def run(P, R):
    R.rule("Abstract execution of operator+ - * =, Mix on each state class and on the whole-system containers, with "
           "symbolic operands, sizes and indices: every leaf (each component of position, orientation, velocity, "
           "acceleration of the i-th line node, point, rod, body) of the result must have the normal form a+b, a-b, "
           "k*a, b, (1-f)*a+f*b of the corresponding leaves, and every list the size of the operand's.")
    R.assume.append("floating point associativity: equality is over the reals")
    for cls in state_classes(P):
        for op in OPS:
            for f in methods(P, cls, op):
                decide(P, R, cls, op, f)
    R.floor("operations", 20)
    R.floor("leaves decided", 60)


def src_rel(op, rel, deep):
    """where the result leaf comes from (derivative * dt: pos <- vel, vel <- acc)"""
    if op != "operator*":
        return rel
    out, done = [], False
    for x in rel:
        if not done and x[0] == "." and x[1] in ("pos", "vel"):
            out.append((".", {"pos": "vel", "vel": "acc"}[x[1]]))
            done = True
        else:
            out.append(x)
    return tuple(out)


def decide(P, R, cls, op, f):
    name = "%s::%s" % (cls.replace("moordyn::", "").replace("Eigen::Matrix<double, 3, 1>", "vec")
                       .replace("Eigen::Matrix<double, 6, 1>", "vec6"), op)
    try:
        X = OpRun(P, cls, f)
    except Limit as x:
        R.unknown("%s: %s" % (name, x))
        return
    if X.st is None or X.rcls is None:
        R.unknown("%s: no result" % name)
        return
    if op != "operator*" and (X.rhs is None or X.rhs[1] != cls):
        R.unknown("%s: other operand" % name)
        return
    R.count("operations")
    I = X.I
    sizes = set()
    for rel, ty, lab, ixs in X.leaves():
        if op == "operator*":
            srel = src_rel(op, rel, False)
        else:
            srel = rel
        base = X.rhs[0] if op == "operator=" else THIS
        X.bind(base, srel, ixs)
        a = X.old(THIS, srel, ty)
        if op == "operator+":
            b = X.old(X.rhs[0], rel, ty)
            want = [x + y for x, y in zip(comps(a), comps(b))]
        elif op == "operator-":
            b = X.old(X.rhs[0], rel, ty)
            want = [x - y for x, y in zip(comps(a), comps(b))]
        elif op == "operator=":
            want = comps(X.old(X.rhs[0], rel, ty))
        elif op == "operator*":
            k = X.scalar(0)
            want = [x * k for x in comps(a)]
        else:
            b = X.old(X.rhs[0], rel, ty)
            k = X.scalar(0)
            want = [x * (ONE - k) + y * k for x, y in zip(comps(a), comps(b))]
        got = comps(X.new(rel, ty))
        if op != "operator=":
            got = [X.simp(X.norm(g, True), ixs) for g in got]
        R.count("leaves decided")
        res = [cmpv(g, w) if isinstance(g, Poly) else "?" for g, w in zip(got, want)] if len(got) == len(want) else ["?"]
        if all(r == "eq" for r in res):
            R.held("%s: %s" % (name, lab))
        elif "ne" in res:
            i = res.index("ne")
            R.violation("%s %s" % (name, lab), loc(f), "component %d of %s becomes %s instead of %s"
                        % (i, lab, show(got[i])[:200], show(want[i])[:200]))
        else:
            R.unknown("%s: %s = %s" % (name, lab, [show(g)[:80] if isinstance(g, Poly) else str(g)[:80] for g in got]))
        for a_, d in ixs:
            p = rel[:d]
            sp = srel[:d]
            if p in sizes:
                continue
            sizes.add(p)
            got = X.size(p)
            want = X.oldsize(base, sp)
            ok = {want}
            if op in ("operator+", "operator-", "Mix"):
                ok.add(X.oldsize(X.rhs[0], sp))
            c = "eq" if got in ok else cmpv(got, want)
            if c == "eq":
                R.held("%s: size of %s" % (name, showpath((("Z", "r"),) + p)))
            elif c == "ne" and not vague(got):
                R.violation("%s size of %s" % (name, showpath((("Z", "r"),) + p)), loc(f), "the result has %s entries, the operand %s" % (show(got), show(want)))
            else:
                R.unknown("%s: size %s" % (name, show(got)))
