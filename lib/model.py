"""Builds the resolved program model of /repo's current sources.

The extractor (extract/mdx.cpp, a clang libTooling program) parses every
translation unit of source/ with the real build's flags and dumps the resolved
syntax tree of everything defined under source/.  This module runs it, merges
the units and offers lookups.  Nothing of the code under analysis is executed.
"""
import hashlib, json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MD_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (not a verdict)."""


def build_extractor():
    src = os.path.join(VERIF, "extract", "mdx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "mdx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-fno-rtti", "-O0", "-w", "-I" + LLVM + "/include",
           src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1",
           "-l:libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stdout[-4000:])
    os.rename(tmp, exe)
    return exe


def cmake_versions():
    v = {}
    import re
    txt = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"MOORDYN_%s_VERSION\s+(\d+)" % k, txt)
        v[k] = m.group(1) if m else "0"
    return v


def sources():
    root = os.path.join(REPO, "source")
    out = []
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x != "Eigen")
        for f in sorted(fn):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def tree_hash(extra=""):
    root = os.path.join(REPO, "source")
    h = hashlib.sha256(extra.encode())
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x != "Eigen")
        for f in sorted(fn):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def flags(root):
    v = cmake_versions()
    return ["-xc++", "-std=gnu++17", "-resource-dir", LLVM + "/lib/clang/18",
            "-DMOORDYN_MAJOR_VERSION=" + v["MAJOR"], "-DMOORDYN_MINOR_VERSION=" + v["MINOR"],
            "-DMOORDYN_PATCH_VERSION=" + v["PATCH"], "-DMoorDyn_EXPORTS", "-DUSE_VTK",
            "-Dkiss_fft_scalar=double", "-Dmoordyn_EXPORTS", "-I" + root,
            "-isystem", "/usr/include/vtk-9.1", "-isystem", "/usr/include/jsoncpp",
            "-DNDEBUG", "-w", "-include", os.path.join(root, "Misc.hpp")]


def extract():
    """Returns {unit: json} for the current working tree (content-hash cached)."""
    exe = build_extractor()
    root = os.path.realpath(os.path.join(REPO, "source"))
    srcs = sources()
    if not srcs:
        raise AnalysisError("no sources under " + root)
    fl = flags(root)
    key = tree_hash(os.path.basename(exe) + " ".join(fl))
    cdir = os.path.join(BUILD, "ast-" + key)
    if not os.path.isdir(cdir):
        os.makedirs(BUILD, exist_ok=True)
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("ast-")),
                     key=os.path.getmtime)
        for d in old[:-40]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)

        def one(s):
            out = os.path.join(tmp, s.replace("/", "_") + ".json")
            r = subprocess.run([exe, root + "/", out, os.path.join(root, s)] + fl,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return s, r.returncode, r.stdout
        # biggest units first, so the pool stays full
        order = sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(root, s)))
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(one, order))
        bad = [(s, o) for s, rc, o in res if rc]
        if bad:
            shutil.rmtree(tmp, ignore_errors=True)
            raise AnalysisError("does not parse: " + "; ".join("%s\n%s" % (s, o[-1500:]) for s, o in bad))
        try:
            os.rename(tmp, cdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.utime(cdir)
    units = {}
    for s in srcs:
        with open(os.path.join(cdir, s.replace("/", "_") + ".json")) as fh:
            units[s] = json.load(fh)
    return units


TYPEKEYS = ("t", "at", "tt", "rt", "tn", "base")


def _resolve(node, types):
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k, v in n.items():
                if k in TYPEKEYS and type(v) is int:
                    n[k] = types[v] if v >= 0 else ""
                elif type(v) is dict or type(v) is list:
                    stack.append(v)
        else:
            for v in n:
                if type(v) is dict or type(v) is list:
                    stack.append(v)


class Program:
    def __init__(self):
        units = extract()
        self.units = sorted(units)
        self.funcs = {}       # id -> record with body
        self.decls = {}       # id -> record (maybe without body)
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.macros = {}
        self.by_name = {}
        self.overriders = {}
        for u in self.units:
            j = units[u]
            types = j["types"]
            for f in j["funcs"]:
                if f["fn"] in self.funcs:
                    continue
                _resolve(f, types)
                f["unit"] = u
                self.funcs[f["fn"]] = f
            for f in j["decls"]:
                if f["fn"] in self.decls:
                    continue
                _resolve(f, types)
                self.decls[f["fn"]] = f
            for c in j["classes"]:
                if c["qn"] in self.classes and (c["file"], c["l"]) == (self.classes[c["qn"]]["file"], self.classes[c["qn"]]["l"]) and c["usr"] == self.classes[c["qn"]]["usr"]:
                    continue
                _resolve(c, types)
                self.classes[c["tn"]] = c
                self.classes.setdefault(c["qn"], c)
            for e in j["enums"]:
                self.enums[(e["qn"], e["file"], e["l"])] = e
            for g in j["globals"]:
                _resolve(g, types)
                k = g["gid"] or (g["file"], g["l"], g["n"])
                if k in self.globals and not (self.globals[k].get("decl") and not g.get("decl")):
                    continue
                self.globals[k] = g
            for m in j["macros"]:
                self.macros[m["n"]] = m
        for f in self.funcs.values():
            self.by_name.setdefault(f["qn"], []).append(f)
        for f in list(self.funcs.values()) + list(self.decls.values()):
            for o in f.get("over", ()):
                s = self.overriders.setdefault(o, [])
                if f["fn"] not in s:
                    s.append(f["fn"])

    # -- lookups ----------------------------------------------------------
    def fn(self, qn, n=None):
        l = self.by_name.get(qn, [])
        if n is not None:
            l = [f for f in l if len(f["params"]) == n]
        return l

    def one(self, qn, n=None):
        l = self.fn(qn, n)
        if len(l) != 1:
            raise AnalysisError("expected one definition of %s, found %d" % (qn, len(l)))
        return l[0]

    def all_overriders(self, fid):
        out, todo = [], [fid]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            todo.extend(self.overriders.get(x, ()))
        return out

    def bases(self, cls):
        """transitive base class type names, including itself"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.classes.get(c)
            if r:
                todo.extend(b["t"] for b in r["bases"])
        return out

    def all_fields(self, cls):
        """[(owner record, field)] of the class and its bases"""
        out = []
        for c in self.bases(cls):
            r = self.classes.get(c)
            if r:
                out.extend((r, f) for f in r["fields"])
        return out


_P = None


def program():
    global _P
    if _P is None:
        _P = Program()
    return _P


# -- generic walks ---------------------------------------------------------
def children(n):
    if isinstance(n, dict):
        for v in n.values():
            if type(v) is dict:
                yield v
            elif type(v) is list:
                for w in v:
                    if type(w) is dict:
                        yield w
    elif isinstance(n, list):
        for w in n:
            if type(w) is dict:
                yield w


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if type(x) is dict:
            if "k" in x:
                yield x
            stack.extend(reversed(list(children(x))))
        elif type(x) is list:
            stack.extend(reversed([w for w in x if type(w) in (dict, list)]))


def strip(e):
    """drop implicit and no-op casts"""
    while e and e.get("k") in ("icast", "cast"):
        e = e["e"]
    return e


def loc(f, n=None):
    return "source/%s:%s" % (f["file"], (n or f).get("l", f.get("l")))
