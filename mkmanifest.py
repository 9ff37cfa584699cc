#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of check modules (developer helper)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python check.py"
NOTE = "symbolic execution of the current /repo/src sources (symx/); every branch on an unknown is decided by z3, all feasible paths are explored, each path's obligations are decided for all values of its unknowns; witnesses and counterexamples are replayed on the plain package"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} {i} --tier quick",
            "thorough_cmd": f"{PY} {i} --tier thorough",
            "technique": "symbolic execution of the Python source with SMT (z3) path exploration over exact exponential polynomials; counterexamples replayed on the real package",
            "level": "model_checking",
            "level_note": NOTE + "; bounds per property in DESIGN.md and in the evidence",
        })
    else:
        na.append({"property": i, "reason": "no check yet: see DESIGN.md"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python selftest.py", "checks": checks, "not_applicable": na,
           "notes": "Known and fixed defects: known_findings.jsonl. No hooks in /repo are needed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
