#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/statements.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/tools"]
import props
from statements import P, NA
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        if p["id"] in props.CONF or p["id"] in NA:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks were needed in /repo: every seam is a public argument, a link-time interposition or compiler instrumentation. /repo carries fix: commits only.",
}
for p in P:
    if p["id"] not in props.CONF:
        continue
    man["checks"].append({
        "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier=thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection: " + p["technique"],
        "level": "exploration", "level_note": p["note"],
    })
json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
