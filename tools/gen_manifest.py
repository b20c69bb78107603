#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from config import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": c.get("technique", "property-based testing: generated values, round-trip against a model, shrinking"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Randomised search with a deterministic seed; shows the absence of violations only on the generated cases.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
m["notes"] = "run.py builds each check from /repo's current headers into build/ (ignored) and removes it after a quiet run. See DESIGN.md."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
