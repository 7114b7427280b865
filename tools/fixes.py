#!/usr/bin/env python3
"""Dev-time only: rewrites the fixed: lines of known-findings.txt from /repo's fix: commits."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.split(" ", 1) for l in open(os.path.join(V, "tools", "fixmap.txt")).read().splitlines() if l]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "2b9167c..HEAD"], text=True).splitlines()
path = os.path.join(V, "known-findings.txt")
old = [l for l in open(path).read().splitlines() if l.startswith("KNOWN-FINDING")] if os.path.exists(path) else []
out = ["# Genuine defects of http-types: recorded ones (KNOWN-FINDING lines, which suppress exactly their key)",
       "# and repaired ones (fixed: lines, which suppress nothing)."] + old
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [p for p, t in MAP if s.startswith(t)]
    assert len(m) == 1, (s, m)
    out.append(f"fixed: property={m[0]} {h} {s}")
open(path, "w").write("\n".join(out) + "\n")
