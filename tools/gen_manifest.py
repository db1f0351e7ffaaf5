#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(os.path.join(V, "tools", "claims.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 engine/run.py %s quick" % i,
                       "thorough_cmd": "python3 engine/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'engine'); import prog; print(prog.build_tool())\"",
     "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: /repo's headers are parsed together with drivers/*.cpp by a libTooling exporter "
              "(engine/exporter.cpp); nothing of the library is compiled to code or executed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
