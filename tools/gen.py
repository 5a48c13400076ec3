#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS, CHECKS, NOT_APPLICABLE, NOTES, SETUP

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for pid, technique, note in CHECKS:
    checks.append({
        "property": pid,
        "quick_cmd": f"bash check.sh {pid} quick",
        "thorough_cmd": f"bash check.sh {pid} thorough",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
ids = {p["id"] for p in PROPS}
claimed = {c["property"] for c in checks}
na = {n["property"] for n in NOT_APPLICABLE}
assert ids == claimed | na and not claimed & na, (ids ^ (claimed | na), claimed & na)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
