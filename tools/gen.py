#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.json5-like Python files."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from properties import PROPS, NOT_APPLICABLE

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        o = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [],
    "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
    "notes": "Every check builds /verif/harness (path dependency on /repo/parser, public API only: no hooks are needed) and runs one property's workload in sharded worker processes under its monitors. See DESIGN.md.",
}
na = {i for i, _ in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na:
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
