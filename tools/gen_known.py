#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo (maintenance tool, never run by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else {"findings": [], "fixed": []}
MAP = json.load(open(os.path.join(V, "tools", "fixes.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
d["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = next((m for m in MAP if m["subject"] in s), None)
    if m is None:
        print("no entry for:", l); continue
    d["fixed"].append("fixed: property=%s %s %s" % (m["property"], h, m["what"]))
json.dump(d, open(P, "w"), indent=1)
