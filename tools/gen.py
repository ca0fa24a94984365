#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec.py and props.py"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from spec import S, NA
from props import PROPS
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
with open(V + "/properties.jsonl", "w") as f:
    for p in S:
        jsonschema.validate(p, ps)
        assert len(p["title"]) <= 80 and p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in S:
    i = p["id"]
    if i in PROPS:
        b = "; ".join(f"[{r['name']}] {r['bounds']}" for r in PROPS[i]["runs"] if r.get("tier", "quick") == "quick")
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
          "technique": "exhaustive symbolic execution of the compiled real code (LLVM IR instrumentation), every path decision discharged by the Z3 SMT solver",
          "level": "model_checking", "level_note": ("Bounded: the verdict covers every value of the symbolic inputs within these bounds and nothing outside: " + b)[:1800]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "Counterexamples are replayed on an uninstrumented build of the same sources before they are reported. Known findings: known_findings.json."}
jsonschema.validate(m, ms)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
