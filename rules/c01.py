"""C01: no exception leaves a C entry point."""
from model import *
from exceptions import Escape


def run(P, R):
    R.rule("For every function with C linkage defined in the library, the least fixpoint of exception types that can "
           "leave it over the resolved call graph (throw expressions, virtual calls to every overrider, constructors, "
           "lambdas, rethrows, throwing standard calls; minus enclosing handlers) is empty.")
    R.assume.append("allocation failure and exceptions raised inside VTK/Eigen are not modelled")
    E = Escape(P)
    thr = 0
    for f in P.funcs.values():
        for n in walk(f["body"]):
            if n["k"] == "throw":
                thr += 1
    R.count("throw expressions", thr)
    for fid, f in sorted(P.funcs.items(), key=lambda x: x[1]["qn"]):
        if not f.get("externC") or f.get("static"):
            continue
        R.count("C entry points")
        if E.esc[fid]:
            for t, w in E.esc[fid].items():
                R.violation("%s lets %s escape" % (f["qn"], t), loc(f), "path: " + " <- ".join(w))
        else:
            R.held("%s (%s): nothing escapes" % (f["qn"], loc(f)))
    R.count("fixpoint rounds", E.rounds)
    R.floor("C entry points", 90)
    R.floor("throw expressions", 60)
