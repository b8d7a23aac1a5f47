#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(H + "/seeded"):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"]))
t = open(H + "/DESIGN.md").read()
a = t.index("<!--planted-->") + len("<!--planted-->")
b = t.index("<!--/planted-->")
t = t[:a] + "\n| property = catching check | planted bug | needs |\n|---|---|---|\n" \
    + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + t[b:]
open(H + "/DESIGN.md", "w").write(t)
