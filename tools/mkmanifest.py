#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, lib/registry.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import registry, notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        n = notes.NOTES[i]
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "technique": n[0], "level": "model_checking", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; bound to the code in both directions by bin/check (see DESIGN.md). No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
