#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: turns bug descriptions into /verif/seeded/<id>/ after confirming each in scratch copies.

FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(old, new)], demo=C++ text, flags='')].
Confirmed means: the edits apply, the repository's stable tests still pass, and the demonstration
exits 0 on the unchanged tree and nonzero with the change.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 %s -w -include cstring -include cstdint -I include "$here/demo.cpp" -o "$T/demo" -pthread || exit 2
cd "$T"
timeout %d ./demo
"""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def tests(tree, tmp):
    exe = os.path.join(tmp, "colortest")
    r = sh("g++ -std=gnu++17 -O1 -w -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS -I%s/include -I%s/ext %s/test/*.cpp -o %s" % (tree, tree, tree, exe), shell=True)
    if r.returncode:
        return "tests do not build: " + r.stdout[:300]
    lines, out = os.path.join(tmp, "l.txt"), os.path.join(tmp, "o.json")
    sh(["python3", "/opt/vp/catch_run.py", exe, tree + "/test", lines])
    sh(["python3", "/opt/vp/results.py", out, "lines:" + lines])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = json.load(open(out))
    bad = [t for t in base if t not in got.get("passed", [])]
    return "stable tests fail: %s" % bad if bad else ""


def one(b):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        tree, clean = tmp + "/bad", tmp + "/good"
        for t in (tree, clean):
            sh(["git", "-C", "/repo", "worktree", "prune"])
            os.makedirs(t)
            sh("git -C /repo archive HEAD | tar -x -C " + t, shell=True)
        sh("git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, cwd=tree)
        for e in b["edits"]:
            f = os.path.join(tree, e[2] if len(e) > 2 else "include/colorsystem.hpp")
            s = open(f).read()
            if s.count(e[0]) != 1:
                return b["id"], "edit matches %d times: %s" % (s.count(e[0]), e[0][:80])
            open(f, "w").write(s.replace(e[0], e[1]))
        patch = sh(["git", "diff"], cwd=tree).stdout
        d = tmp + "/dir"
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(b.get("sh") or DEMO % (b.get("flags", "-O2"), b.get("secs", 120)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        g = sh(["bash", d + "/demo.sh"], cwd=clean)
        if g.returncode:
            return b["id"], "demo fails on the clean tree (%d): %s" % (g.returncode, g.stdout[:300])
        for _ in range(2):
            g = sh(["bash", d + "/demo.sh"], cwd=tree)
            if g.returncode in (0, 2):
                return b["id"], "demo does not show it (%d): %s" % (g.returncode, g.stdout[:300])
        why = "%d %s" % (g.returncode, g.stdout.strip().splitlines()[-1][:100] if g.stdout.strip() else "")
        t = tests(tree, tmp)
        if t:
            return b["id"], t
        dst = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return b["id"], "ok (demo: %s)" % why
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, todo):
            print(i, r, flush=True)
