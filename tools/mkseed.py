#!/usr/bin/env python3
"""mkseed.py SPEC.py... : validates planted bugs in the scratch copy /tmp/pb and stores the valid ones in /verif/seeded/<id>.
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source), LIBS."""
import json, os, re, subprocess, sys, xml.etree.ElementTree as ET, time
PB = "/tmp/pb"; V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = """#!/bin/bash
# builds and runs the demonstration against the libraries built in the current directory (cwd = repository)
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
INC=""; for p in core io projection traffic_rules routing matching validation; do INC="$INC -I$R/lanelet2_$p/include -I$R/lanelet2_$p/include/lanelet2_$p"; done
g++ -std=c++17 -O0 -w -I/usr/include/eigen3 $INC "$D/demo.cpp" -o "$T/demo" -L"$R/_build/lib" -Wl,-rpath,"$R/_build/lib" %LIBS% || exit 90
cd "$T" && timeout 120 ./demo
"""
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def build(): return sh(f"ninja -C {PB}/_build -j8")
def tests():
    rep = f"{PB}/_build/reports"; sh(f"rm -rf {rep}; mkdir -p {rep}")
    sh(f"ctest --test-dir {PB}/_build -j8 --timeout 120 --output-junit {rep}/ctest.xml")
    s = open(f"{rep}/ctest.xml").read(); open(f"{rep}/ctest.xml", "w").write(re.sub(r'(<testcase name="[^"]*") classname="[^"]*"', r"\1", s))
    for pkg in ("lanelet2_python", "lanelet2_examples"):
        d = f"{PB}/{pkg}/test"
        for f in sorted(os.listdir(d)):
            if f.startswith("test_") and f.endswith(".py"):
                sh(f"PYTHONPATH={PB}/_build/python PYTHONDONTWRITEBYTECODE=1 timeout 300 /usr/bin/python3 -m pytest -p no:cacheprovider --rootdir={d} -o junit_suite_name={pkg} --junit-prefix={pkg} --junitxml={rep}/py-{pkg}-{f[:-3]}.xml {f}", cwd=d)
    sh(f"python3 /opt/vp/results.py {rep}/o.json 'junit:{rep}/*.xml'")
    return set(json.load(open(f"{rep}/o.json"))["passed"])
def demo(dir, d): return sh(f"bash {d}/demo.sh", cwd=dir, timeout=300)
for spec in sys.argv[1:]:
    if spec.startswith("-"): continue
    ns = {"LIBS": "-llanelet2_core"}; exec(open(spec).read(), ns)
    sid = ns["ID"]; log = []
    sh(f"git -C {PB} checkout -q -- . ; git -C {PB} fetch -q /repo HEAD && git -C {PB} reset -q --hard FETCH_HEAD")
    out = f"/tmp/seedout/{sid}"; os.makedirs(out, exist_ok=True)
    ok = True
    for f, o, n in ns["EDITS"]:
        p = f"{PB}/{f}"; s = open(p).read()
        if s.count(o) != 1: print(sid, "EDIT FAILED", f, s.count(o), repr(o[:60])); ok = False; break
        open(p, "w").write(s.replace(o, n))
    if not ok: continue
    open(f"{out}/patch.diff", "w").write(sh(f"git -C {PB} diff").stdout)
    open(f"{out}/demo.cpp", "w").write(ns["DEMO"]); open(f"{out}/demo.sh", "w").write(DEMO.replace("%LIBS%", ns["LIBS"]))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    t = time.time()
    b = build()
    if b.returncode: print(sid, "BUILD FAILED", b.stdout[-1500:]); continue
    miss = sorted(stable - tests())
    if miss: print(sid, "TESTS FAIL", miss[:5]); continue
    d1 = demo(PB, out); d0 = demo("/repo", out)
    if d0.returncode != 0 or d1.returncode in (0, 90): print(sid, "DEMO BAD patched", d1.returncode, d1.stdout[-300:], "clean", d0.returncode, d0.stdout[-300:]); continue
    sh(f"mkdir -p {V}/seeded/{sid} && cp {out}/* {V}/seeded/{sid}/")
    t1 = time.time()
    c = sh(f"VERIF_REPO={PB} ./check {ns['PROP']}", cwd=V) if "--nocheck" not in sys.argv else None
    if c: sh(f"git -C {V} checkout -q -- evidence 2>/dev/null")
    print(sid, "VALID", f"{t1-t:.0f}s", "check:", c and (c.returncode, "CAUGHT" if c.returncode == 1 and f"VIOLATION property={ns['PROP']}" in c.stdout else "MISSED"), f"{time.time()-t1:.0f}s", c and c.stdout[-300:], flush=True)
sh(f"git -C {PB} checkout -q -- .")
