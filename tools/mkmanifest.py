#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check {p}",
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": checks.NA.get(p, "machinery for this property is not built yet") if hasattr(checks, "NA") else "machinery for this property is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
