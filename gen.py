#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props.py (same directory)."""
import json, os, subprocess
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": p.get("hook")},
        }) + "\n")
na = {p for p, _ in NOT_APPLICABLE}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(kogarashi_verif)",
              "enable": "RUSTFLAGS=\"--cfg kogarashi_verif\" (env.sh), set for every build of the harness",
              "source_commits": HOOK_COMMITS},
    "checks": [{
        "property": p["id"], "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "technique": p["technique"], "level": "exploration", "level_note": p["level_note"],
    } for p in PROPS if p["id"] not in na],
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(PROPS), "properties,", len(m["checks"]), "checks")
