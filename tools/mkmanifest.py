#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = {
    "C01": "exhaustive TLC exploration of the pool model (all schedules, caps and failing sets in bounds); its schedules are replayed through the real executor with gates and the recorded history is checked against the model",
}
DEF = ("TLC explores the design model exhaustively within its bounds and judges every recorded call of the real code against the same operators; "
       "inputs that are not generated are not executed; trusts TLC and the big-integer override (self-checked against its TLA+ definition)")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": "TLA+ specification, TLC model checking and trace conformance of the real code",
                       "level": "model_checking", "level_note": NOTE.get(i, DEF)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "specification in spec/*.tla; see DESIGN.md"},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
