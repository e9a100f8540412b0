"""development helper: seed.py SPEC.py  - builds and confirms planted bugs in a scratch copy.
SPEC defines BUGS = [dict(id, property, needs, breaks, file, old, new | edits=[(file,old,new)], demo=C++ source)]
Options: --only ID"""
import os, shutil, subprocess, sys, json, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[3:] if len(sys.argv) > 3 else None
W = "/tmp/seedwt"
DEMO = """#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
S="$PWD/trunk/src"
INC="-I$S"
for d in "$S"/*/; do INC="$INC -I$d"; done
for d in "$PWD"/trunk/dependencies/*/; do INC="$INC -I$d"; done
INC="$INC -I/usr/include/eigen3"
cd "$T" || exit 2
g++ -std=c++17 -O1 -w $INC -o demo "$D/demo.cpp" || exit 2
timeout 120 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(b.get("demosh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    sh("git -C /repo worktree prune; rm -rf /tmp/seedwt; git -C /repo worktree add --detach /tmp/seedwt HEAD")
    try:
        bad = None
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r0.returncode: bad = "demo fails unpatched rc=%d %s" % (r0.returncode, (r0.stdout + r0.stderr)[-1500:])
        for f, o, n in edits:
            p = W + "/trunk/src/" + f
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            if t.count(o) != 1: bad = "%s: %d matches in %s" % (b["id"], t.count(o), f); break
            open(p, "w", newline="").write(t.replace(o, n))
        df = subprocess.run("git -C /tmp/seedwt diff", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(df)
        if not bad:
            r1 = sh("bash %s/demo.sh" % d, cwd=W)
            if r1.returncode == 0: bad = "demo passes with the patch"
            if r1.returncode == 2: bad = "demo does not build with patch " + r1.stderr[-800:]
        if not bad:
            # tests: run in a scratch copy of the build
            c = sh("cd /repo && git apply %s/patch.diff && (bash /opt/vp/build.sh >/tmp/sb.log 2>&1; bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1)" % d)
            sh("git -C /repo checkout -- .")
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = base.get("passed") or base.get("stable") or base
            got = set(json.load(open("/tmp/so.json"))["passed"])
            miss = [t for t in want if t not in got]
            if miss: bad = "tests fail: %s" % miss[:4]
        print(b["id"], "CONFIRMED" if not bad else "REJECTED: " + bad, flush=True)
        if bad and not os.environ.get("KEEP"): shutil.rmtree(d)
    finally:
        sh("git -C /repo worktree remove --force /tmp/seedwt; git -C /repo worktree prune")
