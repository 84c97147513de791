#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "checks.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not glob.glob(os.path.join(V, "harness", "**", "src/bin", i.lower() + ".rs"), recursive=True):
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECHNIQUE[i],
        "level": LEVEL.get(i, "exploration"),
        "level_note": NOTE[i],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: every check uses the public API of /repo's crates. Known and fixed findings are in known_findings.txt.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
