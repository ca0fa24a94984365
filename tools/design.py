#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + one section per property (statement of the method below, bounds out of propdefs.py) + tools/design_tail.md"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from spec import S, NA
from props import PROPS
HOW = {}
def how(i, oracle, reach): HOW[i] = (oracle, reach)
exec(open(V + "/tools/design_how.py").read())
out = [open(V + "/tools/design_head.md").read()]
out.append("## Properties\n\nFor each property: what is specified and against what oracle, why that reaches what the tests cannot, the runs with their bounds (quick tier; the thorough tier raises the parameters named) and what is assumed. `reach` labels are vacuity witnesses: a run in which one of them is never reached fails.\n")
for p in S:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    if i not in PROPS:
        out.append(f"Not applicable: {NA[i]}.\n"); continue
    o, r = HOW[i]
    out.append(f"*Specification and oracle.* {o}\n\n*Beyond the tests.* {r}\n")
    for q in PROPS[i]["runs"]:
        t = q.get("thorough_params"); tt = " — thorough: " + ", ".join(f"{a}={b}" for a, b in t.items()) if t else ""
        out.append(f"- `{q['name']}` ({q['harness']}): {q['bounds']}{tt}")
    if PROPS[i]["assumptions"]: out.append("\n*Assumed / outside:* " + "; ".join(PROPS[i]["assumptions"]) + ".")
    out.append("")
out.append(open(V + "/tools/design_tail.md").read())
out.append("## Planted bugs\n\nEach is stored under seeded/<id>/ with a demonstration; all of them build, pass the stable tests and are independent of /repo's fix commits. Caught by (quick tier):\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))
