#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the docstrings / constants of checks/*.py (run by hand)."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "TECHNIQUE", "RULE", "NOTE",
                                                                                   "ASSUMPTIONS"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    note = consts.get("NOTE") or ("Exhaustive within the stated bounds on the real code: " + consts["RULE"] + ".")
    if consts.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(consts["ASSUMPTIONS"]) + "."
    checks.append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough {PY} check.py {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": consts.get("TECHNIQUE", "bounded exhaustive exploration of the implementation against a "
                                                        "reference model"),
                   "level": consts["LEVEL"], "level_note": note})
json.dump({"version": 1, "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '/repo'); import pyrayt\"",
           "checks": checks, "not_applicable": na,
           "notes": "All checks run the code of /repo's working tree in process (PYTHONPATH /repo, no hooks needed)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
