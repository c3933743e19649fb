#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present in engine/checks"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "engine/checks/%s.py" % i.lower())):
        n = NOTE.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": n.get("technique", "static analysis of rustc's typed IR (THIR): gated value numbering with loop summaries, compared with the value graph of a reference function"),
            "level": "other",
            "level_note": n.get("note", "sound for every input under the assumptions of DESIGN.md: real arithmetic for f64, library models, no path or size bound"),
        })
    else:
        na.append({"property": i, "reason": NOTE.get(i, {}).get("na", "not decided yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Deciding machinery: /verif/driver (rustc driver dumping the typed program), /verif/engine (abstract interpreter), /verif/spec (reference functions, analysed, never run)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
