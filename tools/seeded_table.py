#!/usr/bin/env python3
"""seeded_table.py LOG...: rewrites the table in DESIGN.md's section on planted changes from try_bugs.py logs (later lines win)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) rc=(\d)\s+(\d+)s (.*)", l)
        if m:
            k = re.search(r" s (\S+) at ", m.group(5))
            res[m.group(1)] = (m.group(2), m.group(3), k.group(1) if k else "-")
rows = ["| change | property | needs | reported as |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    meta = json.load(open(H + "/seeded/%s/meta.json" % i))
    p, rc, k = res.get(i, (meta["property"], "?", "?"))
    rows.append("| %s | %s | %s | %s |" % (i, meta["property"], meta["needs"], k if rc == "1" else "**missed**" if rc == "0" else "?"))
d = open(H + "/DESIGN.md").read()
a = d.index("<!-- table -->") if "<!-- table -->" in d else d.index("SEEDED_TABLE")
open(H + "/DESIGN.md", "w").write(d[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n")
