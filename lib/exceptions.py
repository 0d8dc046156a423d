"""Interprocedural exception-escape analysis.

esc(f) = the set of exception types that may leave f: types thrown or propagated
from a callee (virtual calls: every overrider; lambdas: their bodies, charged to
the function that contains them), minus what the enclosing handlers catch.
Least fixpoint over the call graph.  Allocation failure is not modelled.
"""
from model import *

STD_PARSE = {"std::" + x for x in ("stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold")}
STD_THROW = {q: ("std::invalid_argument", "std::out_of_range") for q in STD_PARSE}
STD_THROW["std::filesystem::absolute"] = ("std::filesystem::filesystem_error",)
STD_THROW["std::filesystem::canonical"] = ("std::filesystem::filesystem_error",)
STD_BASES = {
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"],
    "std::domain_error": ["std::logic_error", "std::exception"],
    "std::logic_error": ["std::exception"],
    "std::runtime_error": ["std::exception"],
    "std::range_error": ["std::runtime_error", "std::exception"],
    "std::overflow_error": ["std::runtime_error", "std::exception"],
    "std::bad_alloc": ["std::exception"],
    "std::bad_cast": ["std::exception"],
    "std::filesystem::filesystem_error": ["std::system_error", "std::runtime_error", "std::exception"],
    "std::system_error": ["std::runtime_error", "std::exception"],
}


def norm(t):
    t = t.replace("const ", "") if not t.endswith("*") else t
    return t.strip().rstrip("&").strip()


class Escape:
    def __init__(self, P):
        self.P = P
        self.esc = {fid: {} for fid in P.funcs}
        self.sites = 0
        self.calls = 0
        self._basecache = {}
        changed = True
        rounds = 0
        while changed and rounds < 60:
            changed = False
            rounds += 1
            for fid, f in P.funcs.items():
                new = self.func(f)
                if set(new) != set(self.esc[fid]):
                    self.esc[fid] = new
                    changed = True
        self.rounds = rounds

    def bases(self, t):
        if t in self._basecache:
            return self._basecache[t]
        out = [t]
        for b in self.P.bases(t):
            if b not in out:
                out.append(b)
        for b in list(out):
            for x in STD_BASES.get(b, ()):
                if x not in out:
                    out.append(x)
        self._basecache[t] = out
        return out

    def caught_by(self, t, handler):
        h = handler.get("t")
        if h is None:
            return True
        return norm(h) in self.bases(t)

    # maps thrown type -> witness chain (list of strings)
    def func(self, f):
        if f.get("noexcept"):
            return {}
        out = {}
        for i in f.get("inits", ()):
            self.expr(f, i["e"], out, None)
        self.stmt(f, f["body"], out, None)
        return out

    def add(self, out, t, w):
        if t not in out:
            out[t] = w

    def callees(self, n):
        fid = n.get("fn")
        if not fid:
            return []
        if n.get("virt") and not n.get("nonvirt"):
            return [x for x in self.P.all_overriders(fid) if x in self.P.funcs]
        return [fid] if fid in self.P.funcs else []

    def expr(self, f, e, out, cur):
        if e is None:
            return
        for n in walk(e):
            k = n["k"]
            if k == "throw":
                if n.get("e") is None:
                    for t, w in (cur or {}).items():
                        self.add(out, t, w)
                else:
                    self.add(out, norm(n["tt"]), ["throw at %s in %s" % (loc(f, n), f["qn"])])
            elif k == "call":
                q = n.get("qn", "")
                for t in STD_THROW.get(q, ()):
                    self.add(out, t, ["%s at %s in %s" % (q, loc(f, n), f["qn"])])
                for c in self.callees(n):
                    for t, w in self.esc[c].items():
                        self.add(out, t, ["call of %s at %s" % (self.P.funcs[c]["qn"], loc(f, n))] + w[:8])
            elif k == "ctor" and n.get("fn") in self.P.funcs:
                for t, w in self.esc[n["fn"]].items():
                    self.add(out, t, ["construction of %s at %s" % (n["qn"], loc(f, n))] + w[:8])
            elif k == "delete":
                pass

    def stmt(self, f, s, out, cur):
        if s is None:
            return
        k = s["k"]
        if k == "try":
            inner = {}
            self.stmt(f, s["b"], inner, cur)
            left = dict(inner)
            for h in s["h"]:
                got = {t: w for t, w in left.items() if self.caught_by(t, h)}
                left = {t: w for t, w in left.items() if t not in got}
                # a rethrow inside the handler re-emits what it caught; the
                # type of an unmodelled exception stays unmodelled
                self.stmt(f, h["b"], out, got)
            for t, w in left.items():
                self.add(out, t, w)
            return
        for key, v in s.items():
            if key in ("k", "l", "le"):
                continue
            vs = v if type(v) is list else [v]
            for x in vs:
                if type(x) is not dict:
                    continue
                if "k" in x:
                    if x["k"] in STMTS:
                        self.stmt(f, x, out, cur)
                    else:
                        self.expr(f, x, out, cur)
                elif x.get("i"):      # variable
                    self.expr(f, x["i"], out, cur)


STMTS = {"blk", "decl", "if", "for", "while", "do", "rfor", "ret", "brk", "cont", "sw", "case",
         "default", "try", "expr", "null", "label", "goto", "sother"}
