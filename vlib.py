"""Build + run machinery: compiles the current /repo sources with the symbolic instrumentation pass."""
import hashlib, json, os, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
OBJ, MAN = B + "/obj", B + "/man"
PK = ["core", "io", "projection", "traffic_rules", "routing", "matching", "validation"]
INC = ["-I/usr/include/eigen3", "-I" + V + "/engine", "-I" + V + "/harness"] + [f"-I{REPO}/lanelet2_{p}/include" for p in PK]
BASE = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-w", "-fno-strict-aliasing"]
for d in (OBJ, MAN): os.makedirs(d, exist_ok=True)

def sha(b): return hashlib.sha256(b).hexdigest()
_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, "rb").read())
        except OSError: _fh[p] = "-"
    return _fh[p]

def run(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env: e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)

class BuildError(Exception): pass

def tmpname(p): return f"{p}.tmp{os.getpid()}.{threading.get_ident()}"

def engine():
    """builds pass + runtime; returns (pass.so, rt dir)"""
    e = V + "/engine"
    hp = fhash(e + "/SymPass.cpp")[:16]; hr = fhash(e + "/rt.cpp")[:16]
    so = f"{B}/libSymPass-{hp}.so"; rtd = f"{B}/rt-{hr}"; rt = rtd + "/libsymrt.so"
    jobs = []
    if not os.path.exists(so):
        t = tmpname(so)
        fl = run(["llvm-config-18", "--cppflags"]).stdout.decode().split()
        jobs.append((["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", *fl, e + "/SymPass.cpp", "-o", t], t, so))
    if not os.path.exists(rt):
        os.makedirs(rtd, exist_ok=True)
        t = tmpname(rt)
        zd = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
        z = [f"-I{zd}/include", f"-L{zd}/lib", f"-Wl,-rpath,{zd}/lib"] if os.path.exists(zd + "/lib/libz3.so") and os.path.exists(zd + "/include/z3.h") else []
        jobs.append((["g++", *z, "-std=c++17", "-O2", "-g", "-fPIC", "-shared", "-fvisibility=hidden", "-w", e + "/rt.cpp", "-o", t, "-Wl,-Bsymbolic", "-lz3"], t, rt))
    with ThreadPoolExecutor(2) as ex:
        for (c, t, o), r in zip(jobs, ex.map(lambda j: run(j[0]), jobs)):
            if r.returncode: raise BuildError(r.stderr.decode()[-3000:])
            os.rename(t, o)
    return so, rtd, hp

def srcs(pkgs):
    r = []
    for p in pkgs:
        for d, _, fs in os.walk(f"{REPO}/lanelet2_{p}/src"):
            for f in sorted(fs):
                if f.endswith(".cpp") and f != "main.cpp": r.append(os.path.join(d, f))
    return sorted(r)

def compile_one(src, mode, defs, stats):
    so, rtd, hp = engine()
    env = {}
    cmd = ["clang++" if not src.endswith(".c") else "clang"] + [x for x in (BASE if not src.endswith(".c") else ["-O1"])] + list(defs) + INC
    for p in PK:
        if f"/lanelet2_{p}/" in src: cmd.append(f"-I{REPO}/lanelet2_{p}/include/lanelet2_{p}")
    if os.path.basename(src) == "models.cpp": cmd += ["-fno-builtin"]
    if mode == "asan": cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    pl = []
    if mode in ("sym", "symy", "plainy"):
        pl = [f"-fpass-plugin={so}"]
        if mode in ("symy", "plainy"): env["SYM_YIELD"] = "1"
        for d in defs:
            if d == "-DSYM_YIELD_MEM": env["SYM_YIELD_MEM"] = "1"
        if mode == "plainy": env["SYM_ONLY_YIELD"] = "1"
    key = sha(json.dumps([cmd, src, mode, hp if pl else ""]).encode())[:40]
    man = f"{MAN}/{key}.json"
    ml = []
    if os.path.exists(man):
        try: ml = json.load(open(man))
        except ValueError: ml = []
        for m in ml:
            if os.path.exists(f"{OBJ}/{m['obj']}.o") and all(fhash(p) == h for p, h in m["deps"].items()):
                return f"{OBJ}/{m['obj']}.o"
    dep = tmpname(f"{B}/dep")
    r = run(cmd + ["-E", "-P", "-MMD", "-MF", dep, "-MT", "x", src, "-o", dep + ".i"])
    if r.returncode: raise BuildError(f"{src}: " + r.stderr.decode()[-3000:])
    txt = open(dep).read().replace("\\\n", " ")
    deps = {os.path.normpath(p): fhash(os.path.normpath(p)) for p in txt.split(":", 1)[1].split()}
    ph = sha(open(dep + ".i", "rb").read() + key.encode())[:40]
    os.unlink(dep); os.unlink(dep + ".i")
    o = f"{OBJ}/{ph}.o"
    if not os.path.exists(o):
        t = tmpname(o)
        t0 = time.time()
        r = run(cmd + pl + ["-c", src, "-o", t], env)
        if r.returncode: raise BuildError(f"{src}: " + r.stderr.decode()[-4000:])
        os.rename(t, o)
        stats["compiled"] = stats.get("compiled", 0) + 1
        stats.setdefault("times", []).append((round(time.time() - t0, 1), os.path.basename(src)))
    ml = [m for m in ml if m["obj"] != ph][-8:] + [{"obj": ph, "deps": deps}]
    t = tmpname(man); json.dump(ml, open(t, "w")); os.rename(t, man)
    return o

# expensive translation units first
_SLOW = ["LaneletMap.cpp", "LineStringGeometry", "RoutingGraph.cpp", "RoutingGraphBuilder", "OsmHandlerLoad", "BinHandler", "Lanelet.cpp", "Route"]
def build(reqs, stats=None, threads=8):
    """reqs: list of (src, mode, defs). returns objects in order"""
    stats = stats if stats is not None else {}
    engine()
    order = sorted(range(len(reqs)), key=lambda i: 0 if "harness" in reqs[i][0] else 1 if any(s in reqs[i][0] for s in _SLOW) else 2)
    res = [None] * len(reqs)
    with ThreadPoolExecutor(threads) as ex:
        fut = {i: ex.submit(compile_one, *reqs[i], stats) for i in order}
        for i, f in fut.items(): res[i] = f.result()
    return res

def exe_reqs(harness, pkgs, mode="sym", defs=(), extra=(), exclude=()):
    hm = mode
    reqs = [(f"{V}/harness/{harness}", hm, tuple(defs))]
    for s in srcs(pkgs):
        if os.path.basename(s) in exclude: continue
        reqs.append((s, mode, ()))
    for s in extra: reqs.append((f"{V}/harness/{s}", mode, ()))
    if mode.startswith("sym"):
        reqs.append((f"{V}/engine/models.cpp", "sym", ()))
        reqs.append((f"{V}/engine/main.c", "plain", ()))
    else:
        reqs.append((f"{V}/engine/plain.cpp", "plain", ()))
    return reqs

def link(objs, mode, libs=(), stats=None):
    so, rtd, hp = engine()
    h = sha(json.dumps([objs, mode, list(libs), rtd]).encode())[:24]
    ex = f"{B}/exe-{h}"
    if not os.path.exists(ex):
        t = tmpname(ex)
        cmd = ["clang++", "-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") or os.path.exists("/usr/lib/llvm-18/bin/ld.lld") else ["clang++"]
        cmd += [*objs, "-o", t, *libs]
        if mode.startswith("sym"): cmd += [f"-L{rtd}", "-lsymrt", f"-Wl,-rpath,{rtd}"]
        else: cmd += ["-rdynamic"] + (["-fsanitize=address"] if mode == "asan" else [])
        cmd += ["-lpthread"]
        r = run(cmd)
        if r.returncode: raise BuildError("link: " + r.stderr.decode()[-4000:])
        os.rename(t, ex)
    return ex
