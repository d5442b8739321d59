#!/usr/bin/env python3
"""Writes MANIFEST.json from the stages."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p not in stages.STAGES:
        na.append({"property": p, "reason": "not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": stages.TECHNIQUE[p],
        "level": "model_checking",
        "level_note": stages.NOTE[p],
    })
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses the public API only. Every check builds its harness from /repo's working tree. "
              "Repaired defects: KNOWN_FINDINGS.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
