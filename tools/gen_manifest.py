#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PROPS  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
NOTE = ("Held on the executions observed in this run (counts in the evidence file). Trusts the reference "
        "models, monitors and, where used, the sanitizers.")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the monitors use the public API and instrumented user types.",
}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"],
            "level_note": c.get("note", "") + NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
