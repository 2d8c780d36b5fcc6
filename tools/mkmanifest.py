#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the exported API; they are built with a generated overlay that replaces the import of sync by a shim whose locks the virtual clock knows", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "One runner (run.py) for all checks; see DESIGN.md. Repairs of /repo are listed in known-findings.txt.",
}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "the check is not written yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 run.py check %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: " + c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
