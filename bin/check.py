#!/usr/bin/env python3
"""Builds one check from /repo's working tree, runs its exploration and reports.

  check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]

Exit 0: the property held on everything explored. Exit 1 and a line 'VIOLATION property=<id> replay=<path>': it is broken.
Anything else: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, glob, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS

JOBS = os.cpu_count() or 8
BASE = ["-std=c++20", "-I", REPO + "/src", "-I", VERIF + "/lib", "-DGAPP_BUILD_STATIC", "-D_GLIBCXX_ASSERTIONS", "-w", "-pthread"]
# the library's own floating point flags, so that the checks see the arithmetic the users get
FPFLAGS = ["-fno-math-errno", "-fno-trapping-math", "-freciprocal-math", "-fno-signed-zeros"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def compile_one(args):
    src, obj, flags, cxx = args
    r = sh([cxx] + flags + ["-c", src, "-o", obj])
    return (src, r.returncode, r.stdout)

def lib_sources(sel):
    allsrc = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if sel == "all": return allsrc
    if not sel: return []
    return [s for s in allsrc if any(os.path.relpath(s, REPO + "/src").startswith(p) for p in sel)]

def build(spec, out, tier):
    """spec: src, lib, flags, runtime -> executable path"""
    flags = BASE + FPFLAGS + spec.get("flags", [])
    cxx = spec.get("cxx", "g++")
    sched = spec.get("sched", False)
    if sched: flags += ["-O1", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-Wno-tsan"]
    jobs = []
    objs = []
    def add(src, fl):
        o = os.path.join(out, hashlib.md5((src + " ".join(fl)).encode()).hexdigest()[:12] + "_" + os.path.basename(src) + ".o")
        jobs.append((src, o, fl, cxx)); objs.append(o)
    srcs = spec["src"] if isinstance(spec["src"], list) else [spec["src"]]
    for s in srcs:
        if isinstance(s, (tuple, list)): add(os.path.join(VERIF, s[0]), flags + list(s[1:]))
        else: add(os.path.join(VERIF, s), flags)
    for s in lib_sources(spec.get("lib", "all")): add(s, flags)
    for s in spec.get("runtime", []): add(os.path.join(VERIF, s), BASE + spec.get("runtime_flags", ["-O2"]))
    if sched:
        for k, (src, o, fl, cx) in enumerate(jobs): jobs[k] = (src, o, fl + ["-fsanitize=thread"], cx)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        so = ex.submit(sh, ["g++", "-std=c++20", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-fno-threadsafe-statics", "-shared", "-w", "-I", VERIF + "/lib", VERIF + "/lib/sched_rt.cpp", "-o", out + "/libsched.so",
            "-Wl,-z,now", "-Wl,--version-script=" + VERIF + "/lib/sched.map", "-ldl", "-pthread"]) if sched else None
        for src, rc, log in ex.map(compile_one, jobs):
            if rc != 0:
                print(log[-4000:]); print("BUILD FAILED: " + src)
                sys.exit(3)
    exe = os.path.join(out, "harness")
    ld = []
    if sched:
        if so.result().returncode != 0: print(so.result().stdout[-4000:]); print("BUILD FAILED: sched_rt"); sys.exit(3)
        ld = ["-no-pie", "-Wl,-z,now", "-L" + out, "-Wl,-rpath," + out] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")]
        spec = dict(spec, libs=["-lsched"] + spec.get("libs", []))
    r = sh([cxx] + ld + [f for f in flags if not f.startswith("-D") and f != "-w"] + spec.get("ldflags", []) + objs + ["-o", exe] + spec.get("libs", []))
    if r.returncode != 0:
        print(r.stdout[-4000:]); print("LINK FAILED")
        sys.exit(3)
    return exe

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl"); res = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            k = json.loads(line)
            if k["property"] == prop: res[k["sig"]] = k
    return res

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None; keep = False; only = None; verbose = False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--only": only = a[i + 1]; i += 2
        elif a[i] == "--keep": keep = True; i += 1
        elif a[i] == "-v": verbose = True; i += 1
        else: print("unknown argument", a[i]); sys.exit(2)
    specs = CHECKS[prop]["parts"]
    known = load_known(prop)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_" + prop + "_", dir=os.environ.get("VERIF_TMP", "/tmp"))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=94:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=94",
               MC_SEED=str(seed))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, executions=0, cases=0, tasks=0, capped_tasks=0, exhaustive=True, samples=[], parts=[])
    viol = []; knownhit = []; error = None
    try:
        kf = os.path.join(tmp, "known.txt")
        with open(kf, "w") as f: f.write("".join(k + "\n" for k in known))
        for n, spec in enumerate(specs):
            out = os.path.join(tmp, "part%d" % n); os.makedirs(out)
            tb = time.time()
            exe = build(spec, out, tier)
            tb = time.time() - tb
            cmd = [exe, "--tier", tier, "--known", kf, "--errdir", out]
            if replay:
                first = open(replay).read()
                if "part %d\n" % n not in first: continue
                r = subprocess.run(cmd + ["--replay", replay], env=env); sys.exit(r.returncode)
            budget = spec.get("budget", {}).get(tier, 200 if tier == "quick" else 7200)
            cmd += ["--out", os.path.join(out, "result.json"), "--budget", str(budget), "--jobs", str(JOBS)] + spec.get("args", [])
            if only: cmd += ["--only", only]
            if verbose: cmd += ["-v"]
            r = subprocess.run(cmd, env=env, stdout=None if verbose else subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(os.path.join(out, "result.json")):
                error = "harness exit %d: %s" % (r.returncode, (r.stdout or "")[-2000:]); break
            res = json.load(open(os.path.join(out, "result.json")))
            if res["error"]: error = res["error_msg"]
            cov["states"] += res["states"]; cov["transitions"] += res["transitions"]
            cov["executions"] += res["execs"]; cov["traces_validated_against_impl"] += res.get("validated", res["execs"])
            cov["cases"] += res["cases"]; cov["tasks"] += res["tasks"]; cov["capped_tasks"] += res["capped"]
            if res["capped"] or res["tasks_done"] < res["tasks"]: cov["exhaustive"] = False
            cov["samples"] += res["samples"][:12]
            part = dict(harness=spec["src"], build_s=round(tb, 1), explore_s=round(res["wall"], 1), executions=res["execs"], tasks=res["tasks"], tasks_done=res["tasks_done"], capped=res["capped"])
            part.update(res.get("extra", {}))
            cov["parts"].append(part)
            for f in res["failures"]:
                f["part"] = n
                (knownhit if f["known"] else viol).append(f)
            if any(not f["known"] for f in res["failures"]): break
            if error: break
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    cov["bounds"] = CHECKS[prop].get("bounds", "")
    if not cov["samples"]: cov["samples"] = ["(no sample recorded)"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2), violations=len(viol),
              assumptions=CHECKS[prop].get("assumptions", []))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k["sig"]].get("what", k["sig"])))
    if viol:
        v = viol[0]
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s_%s.txt" % (prop, hashlib.md5((v["task"] + v["sig"]).encode()).hexdigest()[:8]))
        with open(rp, "w") as f:
            f.write("property %s\npart %d\ntask %s\nchoices %s\n# %s: %s\n# replay: python3 bin/check.py %s --replay %s\n" % (
                prop, v["part"], v["task"], " ".join(map(str, v["choices"])), v["sig"], v["msg"].replace("\n", "\n# "), prop, rp))
        for x in viol[:4]: print("FAILED %s [%s] %s (replay: %s)" % (x["task"], x["sig"], x["msg"][:900], x["confirm"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if error:
        print("CHECK ERROR: " + error); sys.exit(3)
    print("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%s wall=%.1fs" % (prop, tier, cov["executions"], cov["states"], cov["transitions"], cov["exhaustive"], wall))
    sys.exit(0)

main()
