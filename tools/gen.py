#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
PROPS.sort(key=lambda p: p["id"])
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": []}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick bin/check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
