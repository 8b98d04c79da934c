#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "lib"))
from table import T, NA
from props import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in T:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["st"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": p.get("hook")}}, ensure_ascii=False) + "\n")
ids = [p["id"] for p in T]
checks = []
for p in T:
    if p["id"] not in PROPS:
        assert p["id"] in NA, p["id"]
        continue
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": p["tech"], "level": p.get("level", "proof"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import mirror; mirror.make('.work/repo')\" && mkdir -p evidence",
     "hooks": {"guard": "cfg(kani), present only in the mirror that lib/mirror.py builds under /verif/.work; /repo carries no hooks",
               "enable": "lib/mirror.py copies the hooked files into the mirror and inserts one cfg(kani) statement per hooked function; Kani sets cfg(kani)",
               "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k in ids]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(ids), "properties,", len(checks), "checks")
