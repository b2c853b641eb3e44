#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and tools/checks.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.NA:
        m["not_applicable"].append({"property": i, "reason": checks.NA[i]})
    elif i in checks.CHECKS:
        t, n = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
m["notes"] = checks.NOTES
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
