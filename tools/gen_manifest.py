#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
            "technique": "explicit TLA+ specification model-checked by TLC; every explored behaviour replayed on the real code",
            "level_note": jobs.PROPS[i].get("note", "Exhaustive over the bounded domains listed in DESIGN.md for this property; outside them it is an extrapolation. Trusts TLC, the harness's comparison code and, for storage, its in-memory stand-in."),
        })
    else:
        na.append({"property": i, "reason": "specification module not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "rekordcrate_verif", "enable": "RUSTFLAGS='--cfg rekordcrate_verif' cargo build",
               "source_commits": ["b3651dd56f71c5f64744922d22f40f351527cc9b"]},
     "notes": "TLA+/TLC. See DESIGN.md. The one hook makes the XOR stream module public; everything else is observed through public interfaces and the command-line tool."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
