"""Builds and loads the resolved program (typed AST with resolved callees) of
/repo's current working tree."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ENIGMA_REPO", "/repo")
SRC = os.path.join(REPO, "trunk", "src")
DEP = os.path.join(REPO, "trunk", "dependencies")
BUILD = os.path.join(VERIF, "build")


class Broken(Exception):
    """the analysis itself cannot give an answer"""


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def ensure_tool():
    src = os.path.join(VERIF, "tool", "astdump.cpp")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "astdump-" + _hash_files([src]))
    if not os.path.exists(out):
        with open(os.path.join(BUILD, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), out], capture_output=True, text=True)
                if r.returncode != 0:
                    raise Broken("extractor does not build: " + r.stderr[-2000:])
    return out


def headers():
    hs = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith((".hpp", ".h")):
                hs.append(os.path.join(d, f))
    return sorted(hs)


def produce():
    tool = ensure_tool()
    hs = headers()
    if len(hs) < 150:
        raise Broken("only %d headers found under %s" % (len(hs), SRC))
    extra = [os.path.join(DEP, "rtree", "RTree.h")]
    tag = _hash_files(hs + [e for e in extra if os.path.exists(e)] + [os.path.join(VERIF, "tool", "astdump.cpp")])
    out = os.path.join(BUILD, "ir-%s.json" % tag)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith("ir-"):
                    try:
                        os.remove(os.path.join(BUILD, f))
                    except OSError:
                        pass
            tu = os.path.join(BUILD, "unit-%d.cpp" % os.getpid())
            with open(tu, "w") as f:
                for h in hs:
                    if not h.endswith("_Imp.hpp"):
                        f.write('#include "%s"\n' % h)
                f.write("int enigma_sa_sentinel = 0;\n")
            inc = []
            for d, _, _ in sorted(os.walk(SRC)):
                inc.append("-I" + d)
            cmd = [tool, out + ".tmp", SRC + "," + os.path.join(DEP, "rtree"), tu, "--", "-std=gnu++14",
                   "-I/usr/include/eigen3", "-I" + os.path.join(DEP, "rtree"), "-I" + os.path.join(DEP, "exprtk")] + inc + ["-w"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            os.remove(tu)
            if r.returncode != 0 or not os.path.exists(out + ".tmp"):
                raise Broken("extractor failed: " + r.stderr[-2000:])
            with open(out + ".err", "w") as f:
                f.write(r.stderr)
            os.rename(out + ".tmp", out)
    return out


SHORT = re.compile(r"ENigMA::(?:\w+::)*")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.T = d["types"]
        self.F = d["funcs"]
        self.files = d["files"]
        self.records = {}
        for r in d["records"]:
            self.records[r["name"]] = r
        self.enums = {}
        self.enumval = {}
        for n, ks in d["enums"]:
            self.enums[n.split("::")[-1]] = dict(ks)
            self.enums[n] = dict(ks)
        self.globals = d["globals"]
        self.errors = d["errors"]
        self.by = {}
        self.bycls = {}
        for f in self.F:
            f["params"] = [(p[0], p[1], self.T[p[2]]) for p in f["params"]]
            f["rett"] = self.T[f["ret"]]
            if "body" in f:
                f["floc"] = "%s:%d" % (os.path.relpath(self.files[f["file"]], REPO), f["line"])
            self.by.setdefault(self.short(f["name"]), []).append(f)
            if "cls" in f:
                self.bycls.setdefault(f["cls"], []).append(f)
        self.cshort = {}
        for n in self.records:
            self.cshort.setdefault(self.short(n), n)

    @staticmethod
    def short(n):
        """CGeoLine<double>::length with namespaces stripped"""
        return SHORT.sub("", n)

    def fns(self, name, nparams=None, body=True):
        r = [f for f in self.by.get(name, []) if ("body" in f or not body)]
        if nparams is not None:
            r = [f for f in r if len(f["params"]) == nparams]
        return r

    def fn(self, name, nparams=None, pred=None):
        r = self.fns(name, nparams)
        if pred:
            r = [f for f in r if pred(f)]
        if not r:
            raise Broken("anchor function %s not found" % name)
        return r[0]

    def cls(self, short):
        n = self.cshort.get(short)
        if n is None:
            raise Broken("anchor class %s not found" % short)
        return self.records[n]

    def bodies(self):
        return [f for f in self.F if "body" in f]

    def allbases(self, name, seen=None):
        seen = [] if seen is None else seen
        r = self.records.get(name)
        if r:
            for b in r.get("bases", []):
                if b not in seen:
                    seen.append(b)
                    self.allbases(b, seen)
        return seen

    def allfields(self, name):
        """(owner, field name, type, init, access, line) including inherited ones"""
        out = []
        for n in [name] + self.allbases(name):
            r = self.records.get(n)
            if r:
                for f in r.get("fields", []):
                    out.append((n, f[0], self.T[f[1]], f[2], f[3], f[4]))
        return out

    def file(self, f):
        return os.path.relpath(self.files[f["file"]], REPO)


_P = None


def load():
    global _P
    if _P is None:
        _P = Program(produce())
    return _P


def walk(x):
    """all list nodes of an IR tree, pre-order"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            st.extend(reversed(y))
