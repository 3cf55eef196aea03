#!/usr/bin/env python3
"""try_bugs.py [-a] [ID...]: runs the named property's check (with -a: every check) against each planted change, in scratch copies.
Development aid only; the registered checks never read seeded/."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
ids = args or sorted(os.listdir(HERE + "/seeded"))
props = [c["property"] if "property" in c else c["id"] for c in json.load(open(HERE + "/MANIFEST.json")).get("checks", [])] or ["C%02d" % i for i in range(1, 19)]
for i in ids:
    d = HERE + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="try.")
    try:
        os.makedirs(tmp + "/r")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s/r && cd %s/r && git init -q && git apply %s/patch.diff" % (tmp, tmp, d), shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_BUILD=tmp + "/b", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        for p in props if "-a" in sys.argv else [meta["property"]]:
            t = time.time()
            r = subprocess.run([sys.executable, HERE + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print("%-28s %s rc=%d %4.0fs %s" % (i, p, r.returncode, time.time() - t, " ".join(r.stdout.split("\n"))[:260]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
