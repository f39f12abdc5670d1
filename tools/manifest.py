#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(H, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in conf:
        na.append({"property": i, "reason": conf.get("_na", {}).get(i, "no check has been built yet")})
        continue
    c = conf[i]
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": c.get("technique", "property-based testing (rapid)"),
        "level": "exploration",
        "level_note": c.get("note", "Randomised search with shrinking; holds on everything generated, no exhaustive claim."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo; in-package tests go in by go test -overlay. fix: commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
