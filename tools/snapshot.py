#!/usr/bin/env python3
"""Copies what the last runs covered (evidence/*.json) into tools/scenarios.json, from which gen.py
writes the coverage lists of DESIGN.md. Run by hand after a quick run of every check."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    out[e["property"]] = {
        "bounds": c["bounds"],
        "assumptions": e["assumptions"],
        "scenarios": [[s["scenario"], s["executions"]] for s in c["scenarios"]],
        "wall_s": round(e["wall_s"], 1),
    }
json.dump(out, open(os.path.join(V, "tools", "scenarios.json"), "w"), indent=0)
