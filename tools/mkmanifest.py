#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*.cpp."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    f = "%s/checks/%s.cpp" % (H, p["id"])
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    m = dict(re.findall(r"^//@(technique|level|bound)\s+(.*)$", open(f).read(), re.M))
    checks.append({
        "property": p["id"],
        "quick_cmd": "bin/check %s --tier quick" % p["id"],
        "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": m["technique"], "level": m.get("level", "model_checking"),
        "level_note": m.get("bound", "Exhaustive within the bounds stated in DESIGN.md; real code over a simulated bus, clock and file system.")})
man = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "none", "enable": "no hooks: checks compile /repo's own sources unmodified (main() renamed with -Dmain=) against a simulated bus, clock and files", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check rebuilds from /repo's working tree in a private directory it removes."}
json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
