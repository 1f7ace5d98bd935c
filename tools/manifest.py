#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks from CLAIMS below, everything else as not applicable (with a reason)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        n = "c" + i[1:]
        checks.append({"property": i, "quick_cmd": f"checks/run.sh {n}", "thorough_cmd": f"checks/run.sh {n} --tier thorough",
                       "technique": c[0], "level": c[1], "level_note": c[2], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "lib/build.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
