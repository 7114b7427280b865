#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md (from tools/design.md) from tools/props.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

BOUNDS = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        # at most three sentences
        assert len(re.findall(r"\.(?:\s|$)", p["statement"])) <= 3, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": "explicit-state, stateless model checking of the real code: exhaustive bounded enumeration of executions against a reference model",
        "level": "model_checking",
        "level_note": p["how"] + " Exhaustive within the bounds the evidence file reports; the reference model and the stated assumptions are trusted.",
    })
man = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: the public API suffices. See DESIGN.md; known-findings.txt lists repaired and recorded defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
src = open(os.path.join(HERE, "design.md")).read()
tail = open(os.path.join(HERE, "tail.md")).read()
rows = []
sd = os.path.join(V, "seeded")
caught = {}
cf = os.path.join(HERE, "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {', '.join(caught.get(d, [])) or '-'} |")
tail = tail.replace("@@SEEDED@@", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
per = []
cov = json.load(open(os.path.join(HERE, "scenarios.json")))
for p in PROPS:
    c = cov.get(p["id"])
    t = f"### {p['id']} {p['title']}\n\n*Property.* {p['statement']}\n\n*Decided by.* {p['how']}\n"
    if c:
        t += "\n*Enumerated (quick tier).*\n\n" + "".join(f"- {b}\n" for b in c["bounds"])
        t += "\n*Scenarios (executions).* " + ", ".join(f"{n} {x:,}" for n, x in c["scenarios"]) + f"; {c['wall_s']} s.\n"
        if c["assumptions"]:
            t += "\n*Left undecided or assumed.*\n\n" + "".join(f"- {a}\n" for a in c["assumptions"])
    t += f"\n*Why tests cannot.* {p['why']}\n"
    per.append(t)
open(os.path.join(V, "DESIGN.md"), "w").write(src.replace("@@PROPERTIES@@", "\n".join(per)).replace("@@TAIL@@", tail))
