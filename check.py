#!/usr/bin/env python3
"""check.py <property id>: decides one property by static analysis of /repo's current sources.

exit 0  the property held on everything analysed
exit 1  with a line "VIOLATION property=<id> replay=<report>"
exit 2  the analysis could not be carried out (never a verdict)
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
import model


class Report:
    """What a rule reports: obligations (instances decided), undecided ones, violations."""

    def __init__(self, prop):
        self.prop = prop
        self.viol = []          # (key, where, msg)
        self.ok = []            # discharged obligations (short texts)
        self.undecided = []     # obligations the analysis cannot decide (quiet)
        self.counts = {}
        self.rules = []
        self.assume = []

    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, where, msg):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, where, msg))

    def held(self, text):
        self.ok.append(text)

    def unknown(self, text):
        self.undecided.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """a rule that matches (almost) nothing is broken, not satisfied"""
        n = self.counts.get(name, 0)
        if n < least:
            raise model.AnalysisError("only %d %s found, at least %d expected: the rule no longer matches the code"
                                      % (n, name, least))


def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    R = Report(prop)
    try:
        mod = importlib.import_module(prop.lower())
        P = model.program()
        R.tier = tier
        mod.run(P, R)
    except model.AnalysisError as x:
        print("ANALYSIS-ERROR property=%s %s" % (prop, x))
        return 2
    except Exception as x:
        # what was decided before stands; the rest is undecided, and the evidence says so
        traceback.print_exc()
        R.unknown("the analysis stopped with an internal error (%s: %s): the obligations not listed were not examined" % (type(x).__name__, str(x)[:200]))
    kn = known(prop)
    import absint
    if absint.LOST:
        # a store whose target could not be named: differences found may be its effect
        at = sorted({"%s:%s" % x for x in absint.LOST})[:5]
        for v in [v for v in R.viol if v[0] not in kn]:
            R.unknown("%s (%s; not decided, because a store in %s could not be followed)" % (v[0], v[2], ", ".join(at)))
        R.viol = [v for v in R.viol if v[0] in kn]
    new = [v for v in R.viol if v[0] not in kn]
    old = [v for v in R.viol if v[0] in kn]
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, prop + ".report.txt")
    with open(rep, "w") as fh:
        for v in new:
            fh.write("VIOLATION %s\n  construct: %s\n  where: %s\n  %s\n" % (prop, v[0], v[1], v[2]))
        for v in old:
            fh.write("KNOWN %s\n  construct: %s\n  where: %s\n  %s\n" % (prop, v[0], v[1], v[2]))
        fh.write("\nrules applied:\n" + "".join("  - %s\n" % r for r in R.rules))
        fh.write("\nobligations held (%d):\n" % len(R.ok) + "".join("  + %s\n" % r for r in R.ok))
        fh.write("\nundecided (%d):\n" % len(R.undecided) + "".join("  ? %s\n" % r for r in R.undecided))
    total = len(R.ok) + len(R.undecided) + len(R.viol)
    data = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved syntax tree of /repo's current sources; nothing is executed. "
                           + " ".join(R.rules),
            "rule": " ".join(R.rules),
            "units_parsed": len(P.units), "functions_in_model": len(P.funcs),
            "obligations": total, "discharged": len(R.ok), "undecided": len(R.undecided),
            "counts": R.counts,
            "samples": R.ok[:6] + R.undecided[:3],
        },
        "assumptions": R.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as fh:
        json.dump(data, fh, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, v[0], kn[v[0]]))
    print("%s: %d obligations, %d held, %d undecided, %d known, %d violations (%.1f s)"
          % (prop, total, len(R.ok), len(R.undecided), len(old), len(new), time.time() - t0))
    if new:
        for v in new:
            print("  %s [%s] %s" % (v[1], v[0], v[2]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
