#!/usr/bin/env python3
"""Planted changes: `plant.py new FILE.py` writes /verif/seeded/<id> from edit
descriptions; `plant.py run [ID...]` applies each to /repo, builds, runs the
stable tests, the demonstration and the check of its property, and undoes it.
`plant.py fixes [COMMIT...]` does the same with the repairs reversed."""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# exit 0: the property's sample instance holds; nonzero: it does not
set -eu
d=$(cd "$(dirname "$0")"; pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
g++ -std=gnu++14 -O1 -g0 -w -DBINARY_OUTPUT -DCURVE_ALT_BN128 -DMONTGOMERY_OUTPUT -DNO_PROCPS -DUSE_ASM -DNDEBUG %s -mpclmul -msse4.1 -I. "$d/demo.cpp" %s -lgmp -lsodium -o "$t/demo"
cd "$t"
timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def new(path):
    for b in runpy.run_path(path)["BUGS"]:
        d = os.path.join(S, b["id"])
        w = tempfile.mkdtemp(prefix="plant-")
        try:
            for side in "ab":
                for f, _, _ in b["edits"]:
                    os.makedirs(os.path.dirname(os.path.join(w, side, f)), exist_ok=True)
                    shutil.copy(os.path.join("/repo", f), os.path.join(w, side, f))
            for f, old, nw in b["edits"]:
                p = os.path.join(w, "b", f)
                s = open(p).read()
                n = s.count(old)
                if n != b.get("count", 1):
                    raise SystemExit("%s: %d occurrences in %s" % (b["id"], n, f))
                open(p, "w").write(s.replace(old, nw))
            diff = sh(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=w).stdout
            diff = diff.replace("a/a/", "a/").replace("b/b/", "b/").replace("a/b/", "a/")
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].strip() + "\n")
            lib = b.get("lib", "_build/libff/libff.a")
            if b.get("sources"):
                lib = "$(find libff -name '*.cpp' | grep -v -e tests/ -e examples -e bn128/bn128 -e benchmark -e profile) -fopenmp".replace("-e bn128/bn128", "-e /bn128/")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % (b.get("flags", ""), lib))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(w)


def tests():
    out = "/tmp/plant-tests.json"
    r = sh(["bash", "/opt/vp/test.sh", out])
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
    got = json.load(open(out))["passed"]
    bad = [t for t in stable if t not in got]
    return bad, r.stderr[-300:]


def demo(i):
    try:
        return sh(["bash", os.path.join(S, i, "demo.sh")], cwd="/repo", timeout=300).returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def check(prop):
    t = time.time()
    r = sh([os.path.join(V, "bin/check"), prop, "--tier", "quick"])
    hit = "VIOLATION property=%s " % prop in r.stdout
    return "%s(%d) %.0fs" % ("caught" if hit and r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t), r.stdout


def guarded(apply, undo, f):
    assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "dirty /repo"
    r = sh(apply)
    try:
        if r.returncode:
            print("  does not apply:", r.stderr[:300]); return
        f()
    finally:
        sh(undo)


def run(ids, full=True, props=None):
    sh(["bash", "/opt/vp/build.sh"])
    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        clean = demo(i) if full else "-"

        def go():
            bad, err = tests() if full else ([], "")
            d = demo(i) if full else "-"
            res = []
            for p in props or [m["property"]]:
                c, out = check(p)
                res.append(p + " " + c)
                if "caught" not in c:
                    res.append(out[-300:])
            print(i, "| tests", "ok" if not bad else "BROKEN %s" % bad[:3], "| demo %s -> %s |" % (clean, d), " ".join(res), flush=True)
        guarded(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], ["git", "-C", "/repo", "checkout", "--", "."], go)
    if full:
        sh(["bash", "/opt/vp/build.sh"])


def fixes(which):
    for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        if line.startswith("fixed: "):
            p, c = line.split()[1].split("=")[1], line.split()[2]
            if which and c not in which:
                continue
            d = sh("git -C /repo show %s" % c).stdout
            open("/tmp/fix.diff", "w").write(d)
            guarded(["git", "-C", "/repo", "apply", "-R", "/tmp/fix.diff"], ["git", "-C", "/repo", "checkout", "--", "."],
                    lambda: print(c, p, *check(p)[:1], flush=True))


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    elif sys.argv[1] == "fixes":
        fixes(sys.argv[2:])
    else:
        a = sys.argv[2:]
        props = [x for x in a if x[0] == "P"]
        ids = [x for x in a if x[0] != "P" and x[0] != "-"]
        run(ids or sorted(os.listdir(S)), "--fast" not in a, props)
