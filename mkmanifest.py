#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os

from checks import CHECKS, NOT_APPLICABLE

os.chdir(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(line)["id"] for line in open("properties.jsonl")]
checks = []
for pid in ids:
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "its monitor is not built yet")} for p in ids if p not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed at public interfaces (a user-supplied Forest, the Grammar trait, "
             "completion groups, progress reports). The commits in /repo are repairs (fix:).",
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
