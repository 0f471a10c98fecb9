#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
T = json.load(open(root / "tools" / "techniques.json"))
NA = json.load(open(root / "tools" / "not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": t["technique"],
            "level": "other",
            "level_note": t["note"],
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check is built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses over the type-checked program and its SSA form; see DESIGN.md. Findings: known_findings.txt."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
