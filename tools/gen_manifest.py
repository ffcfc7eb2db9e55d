#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from harness.registry import REG
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    r = REG.get(p["id"])
    if not r:
        na.append({"property": p["id"], "reason": "no check registered yet (work in progress)"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "TLA+ specification checked with TLC; trace validation of the real code against it",
        "level": "model_checking",
        "level_note": "design models " + ", ".join(r["models"] + r["models_thorough"]) + " checked exhaustively within small constants; "
                      f"traces recorded from the real code (drivers {', '.join(r['drivers'])}) validated event by event against {r['trace']}",
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. check.py runs the design model, records traces from /repo's working tree, and has TLC decide every recorded event. No hooks in /repo: the public API exposes the abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
