#!/usr/bin/env python3
"""Regenerate MANIFEST.json from levels.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(H + "/levels.json"))
na = json.load(open(H + "/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in lv:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "contract-based deductive verification: contracts on the real functions, verification conditions generated by symbolic execution of the current source (pyvc) and discharged by z3/cvc5; the same contracts executed on the real code as bounded stand-in and witness finder",
            "level": lv[i]["level"], "level_note": lv[i].get("note", "every obligation generated from /repo's current source is discharged on the unchanged tree; floats as reals, library models assumed")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
