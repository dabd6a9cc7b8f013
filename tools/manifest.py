#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/suites.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
suites = json.load(open(V + "/harness/suites.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/harness/not_applicable.json"))
checks, out = [], []
for p in props:
    s = suites.get(p["id"])
    if not s:
        out.append({"property": p["id"], "reason": na.get(p["id"], "the check is not built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": s["technique"],
        "level": s.get("level", "exploration"),
        "level_note": s["note"],
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": out,
     "notes": "No hooks in /repo: the harness is overlaid as packages under internal/verif (go build -overlay), so it can use internal packages. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
