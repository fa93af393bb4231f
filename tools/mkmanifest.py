#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
            "level": "exploration",
            "level_note": c.get("note", "Seeded sampling of operations, schedules and faults on the real code; a clean batch is evidence, not proof."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not decided yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
