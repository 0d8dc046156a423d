"""pretty printer of the extracted tree (for reports and debugging)"""
def E(e, d=0):
    if e is None: return ""
    if d > 14: return "..."
    k = e["k"]; d += 1
    if k in ("int", "flt"): return e.get("v", "?")
    if k == "null": return "NULL"
    if k == "str": return repr(e["v"])
    if k == "this": return "this"
    if k == "ref": return e["n"]
    if k == "mem": return E(e["b"], d) + ("->" if e.get("arrow") else ".") + e["n"]
    if k == "memfn": return E(e["b"], d) + "." + e["n"]
    if k == "icast": return E(e["e"], d)
    if k == "cast": return "(%s)%s" % (e["ts"], E(e["e"], d))
    if k == "un": return E(e["e"], d) + e["op"] if e.get("post") else e["op"] + E(e["e"], d)
    if k in ("bin", "asg"): return "(%s %s %s)" % (E(e["x"], d), e["op"], E(e["y"], d))
    if k == "cond": return "(%s ? %s : %s)" % (E(e["c"], d), E(e["x"], d), E(e["y"], d))
    if k == "sub": return "%s[%s]" % (E(e["b"], d), E(e["i"], d))
    if k == "call":
        a = ", ".join(E(x, d) for x in e["a"])
        if "op" in e:
            if "o" in e:
                if e["op"] in ("()", "[]"): return "%s%s%s%s" % (E(e["o"], d), e["op"][0], a, e["op"][1])
                return "(%s %s %s)" % (E(e["o"], d), e["op"], a)
            return "(%s)" % ((" %s " % e["op"]).join(E(x, d) for x in e["a"])) if len(e["a"]) > 1 else e["op"] + a
        ta = "<%s>" % ",".join(str(x) for x in e["ta"]) if "ta" in e else ""
        o = E(e["o"], d) + ("->" if e.get("arrow") else ".") if "o" in e else ""
        return "%s%s%s(%s)" % (o, (e.get("n") if o else e.get("qn")) or E(e.get("callee"), d), ta if len(ta) < 30 else "<..>", a)
    if k == "ctor": return "%s{%s}" % (e["qn"].split("::")[-1], ", ".join(E(x, d) for x in e["a"]))
    if k == "new": return "new %s%s" % (e["at"], "[%s]" % E(e.get("size"), d) if e.get("arr") else "(%s)" % E(e.get("init"), d))
    if k == "delete": return "delete%s %s" % ("[]" if e.get("arr") else "", E(e["e"], d))
    if k == "throw": return "throw " + E(e.get("e"), d)
    if k == "list": return "{%s}" % ", ".join(E(x, d) for x in e["a"])
    if k == "lambda": return "[..](%s){..}" % ",".join(p["n"] for p in e["params"])
    if k == "zero": return "{}"
    if k == "sizeof": return "sizeof(%s)" % e["at"]
    return "<%s>" % e.get("cn", k)

def S(s, ind=0, out=None):
    top = out is None
    if top: out = []
    p = "  " * ind
    def w(x): out.append("%5s %s%s" % (s.get("l", ""), p, x))
    if s is None: return
    k = s["k"]
    if k == "blk":
        for x in s["s"]: S(x, ind, out)
    elif k == "decl":
        for v in s["v"]: w("%s %s = %s" % (v["ts"], v["n"], E(v.get("i"))))
    elif k == "if":
        if s.get("init"): S(s["init"], ind, out)
        if s.get("cvar"): w("cvar %s = %s" % (s["cvar"]["n"], E(s["cvar"].get("i"))))
        w("if " + E(s["c"])); S(s["x"], ind + 1, out)
        if s["y"]: w("else"); S(s["y"], ind + 1, out)
    elif k == "for":
        if s["init"]: S(s["init"], ind, out)
        w("for ; %s; %s" % (E(s["c"]), E(s["inc"]))); S(s["b"], ind + 1, out)
    elif k == "while": w("while " + E(s["c"])); S(s["b"], ind + 1, out)
    elif k == "do": w("do"); S(s["b"], ind + 1, out); w("while " + E(s["c"]))
    elif k == "rfor": w("for %s %s : %s" % (s["v"]["ts"], s["v"]["n"], E(s["r"]))); S(s["b"], ind + 1, out)
    elif k == "ret": w("return " + E(s["e"]))
    elif k == "brk": w("break")
    elif k == "cont": w("continue")
    elif k == "sw": w("switch " + E(s["c"])); S(s["b"], ind + 1, out)
    elif k == "case": w("case %s:" % E(s["v"])); S(s["s"], ind + 1, out)
    elif k == "default": w("default:"); S(s["s"], ind + 1, out)
    elif k == "try":
        w("try"); S(s["b"], ind + 1, out)
        for h in s["h"]: w("catch %s" % h.get("t", "...")); S(h["b"], ind + 1, out)
    elif k == "expr": w(E(s["e"]))
    elif k == "null": pass
    else: w("<%s>" % s.get("cn", k))
    if top: return "\n".join(out)

if __name__ == "__main__":
    import sys, model
    P = model.program()
    for q in sys.argv[1:]:
        for n, l in sorted(P.by_name.items()):
            if q in n:
                for f in l:
                    print("==== %s %s(%s) [%s]" % (f["rts"], n, ", ".join(p["ts"] + " " + p["n"] for p in f["params"]), model.loc(f)), f.get("ta", ""), "EXTERNC" if f.get("externC") else "")
                    print(S(f["body"]))
