#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks_table import T, NOT_APPLICABLE

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in T:
        t = T[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t["technique"],
            "level": t["level"],
            "level_note": t["note"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "The check for this property is not built yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: every check goes through the crate's public interface. The commits in /repo are repairs of genuine defects (known_findings.json, DESIGN.md).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
