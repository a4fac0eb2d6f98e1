#!/usr/bin/env python3
"""Write MANIFEST.json from the registry of checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: drivers use the public API only."}
for p in props:
    pid = p["id"]
    if pid in checks.CHECKS:
        c = checks.CHECKS[pid]
        m["checks"].append({
            "property": pid, "quick_cmd": "python3 vf.py run %s quick" % pid,
            "thorough_cmd": "python3 vf.py run %s thorough" % pid,
            "technique": c.get("technique", "TLA+ specification model-checked with TLC; recorded behaviour of the real code validated against it with TLC"),
            "level": "model_checking", "level_note": c.get("note", "")})
    else:
        m["not_applicable"].append({"property": pid, "reason": checks.NOT_APPLICABLE.get(pid, "check under construction")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
