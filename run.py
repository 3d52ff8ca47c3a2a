#!/usr/bin/env python3
"""Decides one property: compiles the current /repo code with its harness to LLVM IR, executes it symbolically
(/verif/symex, Z3), replays counterexamples and sampled paths natively, writes /verif/evidence/<id>.json.
usage: run.py ID [--tier quick|thorough] [--entry NAME] [--keep]      exit 0 held, 1 violation, 2 no verdict"""
import sys, os, json, subprocess, hashlib, time, re, shutil, tempfile, threading, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")      # set only for experiments on scratch copies
BUILD = os.path.join(HERE, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
sys.path.insert(0, HERE)
from checks import CHECKS
NPROC = 8
CLANGF = ("-std=c++11 -O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -gline-tables-only "
          "-D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -emit-llvm -c -w").split()
H = os.path.join(HERE, "harness")
MERGE = r"_M_find_before_node|_Hashtable<char, .*::find\(|^memchr$|basic_string<char, .*>::r?find\(|hasSufix|bool std::(__)?equal(_aux1?)?<"

def log(*a): print(*a, flush=True)
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def die(msg, code=2):
    log("NO-VERDICT:", msg); sys.exit(code)
def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def repo_files():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".h", ".hpp", ".cpp"))]
    return sorted(r) + [os.path.join(REPO, "include/wisardpkg.hpp"), os.path.join(REPO, "generate_include.py")]

def build_symex():
    srcs = sorted(glob.glob(os.path.join(HERE, "symex", "*.cpp"))); hdrs = sorted(glob.glob(os.path.join(HERE, "symex", "*.h")))
    exe = os.path.join(BUILD, "symex-" + digest(*srcs, *hdrs))
    if os.path.exists(exe): return exe
    inc = run(["llvm-config-18", "--includedir"]).stdout.strip(); libs = run(["llvm-config-18", "--ldflags", "--libs"]).stdout.split()
    tmp = tempfile.mkdtemp(dir=BUILD); objs = []; ps = []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + ".o"); objs.append(o)
        ps.append(subprocess.Popen(["clang++", "-std=c++17", "-O2", "-w", "-c", s, "-I" + inc, "-I" + Z3 + "/include", "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out = p.communicate()[0]
        if p.returncode: die("the executor does not compile:\n" + out)
    r = run(["g++"] + objs + ["-o", exe + ".tmp%d" % os.getpid()] + libs + ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"])
    shutil.rmtree(tmp)
    if r.returncode: die("the executor does not link:\n" + r.stdout)
    os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe

def gen_header():
    """the single header generate_include.py makes from the current src/"""
    d = tempfile.mkdtemp(dir=BUILD)
    try:
        os.mkdir(d + "/include"); os.symlink(REPO + "/src", d + "/src"); shutil.copy(REPO + "/test.cc", d) if os.path.exists(REPO + "/test.cc") else None
        r = run([sys.executable, REPO + "/generate_include.py"], cwd=d)
        return open(d + "/include/wisardpkg.hpp", "rb").read()
    except Exception as e:
        return None
    finally:
        shutil.rmtree(d)

class Ctx: pass
class Killed(Exception): pass

def compile_all(c, want_hpp):
    """harness -> bitcode (src and, if it differs from src, the single header), runtime -> bitcode, native replay programs"""
    src = os.path.join(H, c.chk["src"]); deps = [src] + sorted(glob.glob(H + "/*.h") + glob.glob(H + "/shadow/*") + glob.glob(H + "/pystub/pybind11/*")) + repo_files()
    key = digest(*[d for d in deps if os.path.exists(d)], *[os.path.join(H, x) for x in ("rt.cpp", "native.cpp")])
    c.dir = os.path.join(BUILD, "h-" + c.id + "-" + key); os.makedirs(c.dir, exist_ok=True)
    inc = ["-I" + H, "-I" + H + "/pystub"]
    variants = {"src": ["-I" + REPO + "/src"]}
    if want_hpp: variants["hpp"] = ["-DUSE_HPP", '-DWISARD_HPP="%s/include/wisardpkg.hpp"' % REPO]
    jobs = {"rt.bc": ["clang++"] + CLANGF + ["-I" + H + "/shadow"] + inc + [H + "/rt.cpp", "-o"]}
    defs = ["-D" + d for d in c.chk.get("defs", [])]
    for v, f in variants.items():
        jobs[v + ".bc"] = ["clang++"] + CLANGF + ["-I" + H + "/shadow"] + inc + f + defs + [src, "-o"]
        g = ["clang++", "-std=c++11", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-rdynamic"] + inc + f + defs + [src, H + "/native.cpp"]
        jobs[v + ".asan"] = g + ["-fsanitize=address", "-fsanitize=integer-divide-by-zero", "-fno-sanitize-recover=all", "-ldl", "-o"]
        jobs[v + ".plain"] = g + ["-ldl", "-o"]
    c.comp = {}
    def one(n, cmd):
        out = os.path.join(c.dir, n)
        if os.path.exists(out): return
        t = out + ".tmp%d" % os.getpid(); r = run(cmd + [t])
        if r.returncode: raise RuntimeError("compiling %s failed:\n%s" % (n, r.stdout[-4000:]))
        os.rename(t, out)
    c.pool = ThreadPoolExecutor(NPROC)
    order = sorted(jobs, key=lambda n: (not n.endswith(".bc"), n.endswith(".plain")))
    c.comp = {n: c.pool.submit(one, n, jobs[n]) for n in order}
    return list(variants)

def native(c, variant, entry, params, vector, kind, mode="asan"):
    """(exit code, output) of the native program on a vector"""
    c.comp[variant + "." + mode].result()
    d = tempfile.mkdtemp(dir=c.dir)
    try:
        vf = os.path.join(d, "vector"); 
        with open(vf, "w") as f:
            for k, v in params.items(): f.write("P %s %d\n" % (k, v))
            for n, v in vector: f.write("V %s %s\n" % (n, v))
        exe = os.path.join(c.dir, variant + "." + mode); w = os.path.join(d, "w"); os.mkdir(w)
        env = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4000", UBSAN_OPTIONS="halt_on_error=1:exitcode=66:print_stacktrace=1", LC_ALL="C")
        cmd = [exe, entry, vf]
        if mode == "plain": cmd = ["valgrind", "-q", "--error-exitcode=67", "--exit-on-first-error=yes"] + cmd
        try: r = run(cmd, cwd=w, env=env, timeout=120); return r.returncode, r.stdout
        except subprocess.TimeoutExpired: return -14, "TIMEOUT"
    finally: shutil.rmtree(d)

def reproduces(c, variant, entry, params, v):
    rc, out = native(c, variant, entry, params, v["vector"], v["kind"])
    if rc not in (0, 90, 91, 2): return True, rc, out
    if rc == 0 and v["kind"] in ("uninit", "mem-read", "mem-write", "free", "stack"):
        rc2, out2 = native(c, variant, entry, params, v["vector"], v["kind"], "plain")
        if rc2 not in (0, 90, 91, 2): return True, rc2, out2
    return False, rc, out

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True); build_symex(); log("ready"); sys.exit(0)
    pid = a[0]; tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"; only = a[a.index("--entry") + 1] if "--entry" in a else None
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    c = Ctx(); c.id = pid; c.chk = CHECKS[pid]; t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = []
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get("open", []) if k["property"] == pid]
    gh = gen_header(); cur = open(REPO + "/include/wisardpkg.hpp", "rb").read() if os.path.exists(REPO + "/include/wisardpkg.hpp") else None
    want_hpp = cur is not None and gh != cur and c.chk.get("hpp", True)
    variants = compile_all(c, want_hpp)
    exe = build_symex()
    try:
        for n in ["rt.bc"] + [v + ".bc" for v in variants]: c.comp[n].result()
    except RuntimeError as e:
        die(str(e))
    tcomp = time.time() - t0
    jobs = []
    for v in variants:
        for j in c.chk["jobs"]:
            if j.get("tier", "quick") != "quick" and tier == "quick": continue
            if j.get("quick_only") and tier != "quick": continue
            if only and j["entry"] != only: continue
            if v == "hpp" and j.get("src_only"): continue
            jobs.append((v, j))
    jobs.sort(key=lambda x: (x[0] != "src", -x[1].get("cost", 1)))
    stop = threading.Event(); procs = set(); lock = threading.Lock(); results = []; violations = []; knownhit = []; unrep = []; badsample = []; nvalid = [0]
    budget = c.chk.get("budget", {}).get(tier, 780 if tier == "quick" else 3300)
    def execute(v, j):
        if stop.is_set(): return None
        left = budget - (time.time() - t0)
        if left < 5: return {"skipped": True}
        params = dict(j.get("params", {})); out = tempfile.mktemp(dir=c.dir, suffix=".json")
        cmd = [exe, "--entry=" + j["entry"], "--out=" + out, "--repo=" + REPO + "/src/" if v == "src" else "--repo=" + REPO + "/include/", "--time=%d" % left, "--mem=%d" % j.get("mem", 3400),
               "--samples=%d" % j.get("samples", 3), "--seed=%d" % seed, "--maxviol=%d" % j.get("maxviol", 3), "--qtimeout=%d" % j.get("qtimeout", 120), "--steps=%d" % j.get("steps", 400000000)]
        for m in j.get("merge", [MERGE]): cmd.append("--merge=" + m)
        if j.get("absfp"): cmd.append("--abstract-fp")
        for k, x in params.items(): cmd.append("--param=%s=%d" % (k, x))
        cmd += [os.path.join(c.dir, v + ".bc"), os.path.join(c.dir, "rt.bc")]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env={k: x for k, x in os.environ.items() if k != "SX_REEXEC"})
        with lock: procs.add(p)
        try: so = p.communicate(timeout=left + 60)[0]
        except subprocess.TimeoutExpired: p.kill(); so = p.communicate()[0] + "\nkilled"
        with lock: procs.discard(p)
        if stop.is_set() and not os.path.exists(out): return None
        if not os.path.exists(out): return {"error": so[-2000:]}
        try: r = json.load(open(out), strict=False)
        except Exception as e: return {"error": "unreadable result: %s %s" % (e, so[-500:])}
        os.unlink(out)
        r["replays"] = []
        for x in r["violations"]:
            ok, rc, o = reproduces(c, v, j["entry"], params, x)
            rec = dict(x, entry=j["entry"], params=params, variant=v, native_exit=rc, native_output=o[-3000:], defs=c.chk.get("defs", []))
            if not ok: unrep.append(rec); continue
            k = next((k for k in known if k.get("entry") == j["entry"] and k.get("kind", x["kind"]) == x["kind"] and k["msg"] in x["msg"] and k.get("where", "") in x["where"]), None)
            if k: knownhit.append(k)
            else:
                violations.append(rec)
                if not os.environ.get("VX_ALL"):
                    stop.set()
                    with lock:
                        for q in procs: q.kill()
        if not stop.is_set():
            for s in r["samples"]:
                if j.get("noreplay"): break
                rc, o = native(c, v, j["entry"], params, s["vector"], "")
                got = re.findall(r"^O (\S+) (\d+)$", o, re.M); want = [(n, x) for n, x in s["obs"]]
                if rc != 0 or [list(g) for g in got] != [list(w) for w in want]:
                    badsample.append({"entry": j["entry"], "params": params, "variant": v, "vector": s["vector"], "native_exit": rc, "native_output": o[-2000:], "expected": want})
                else: nvalid[0] += 1
        return r
    with ThreadPoolExecutor(NPROC) as ex:
        fut = {ex.submit(execute, v, j): (v, j) for v, j in jobs}
        for f in as_completed(fut):
            v, j = fut[f]; r = f.result(); results.append((v, j, r))
            if "-v" in a and r is not None:
                log("  %s %s %s: %s" % (v, j["entry"], j.get("params", {}), {k: r.get(k) for k in ("time", "paths", "queries", "solver_time", "inconclusive", "unsupported", "error", "skipped") if k in r}), "viol=%d" % len(r.get("violations", [])))
    done = [(v, j, r) for v, j, r in results if r and "paths" in r]
    problems = []
    for v, j, r in results:
        if r is None: continue
        if r.get("skipped"): problems.append("out of time before %s %s" % (j["entry"], j.get("params", {})))
        elif r.get("error"): problems.append("%s: executor failed: %s" % (j["entry"], r["error"]))
        elif r["inconclusive"]: problems.append("%s %s incomplete: %s" % (j["entry"], j.get("params", {}), list(r["unsupported"])[:5]))
    reached = set(); [reached.update(r["reached"]) for _, _, r in done]
    text = open(os.path.join(H, c.chk["src"])).read()
    if not violations and not only:
        ents = {j["entry"] for _, j in jobs}
        for blk in re.split(r"(?=^ENTRY\()", text, flags=re.M):
            m = re.match(r"ENTRY\((\w+)\)", blk)
            if m and m.group(1) in ents:
                for tag in re.findall(r'REACH\("([^"]*)"\)', blk):
                    if tag not in reached: problems.append("vacuous: %s never reached '%s'" % (m.group(1), tag))
    for u in unrep: problems.append("counterexample not reproduced natively: %s %s at %s (native exit %s)" % (u["kind"], u["msg"], u["where"][:300], u["native_exit"]))
    for b in badsample: problems.append("sampled path differs natively: %s exit %s %s" % (b["entry"], b["native_exit"], b["native_output"][-300:]))
    tot = lambda k: sum(r.get(k, 0) for _, _, r in done)
    funcs = sorted(set().union(*[set(r["functions"]) for _, _, r in done])) if done else []
    lines = {}
    for _, _, r in done:
        for f, l in r["lines"].items(): lines.setdefault(f, set()).update(l)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "assumptions": ["LLVM IR of the current /repo sources (clang 18, -O1 front end) executed by /verif/symex; Z3 decides every branch and assertion",
                          "library internals outside the repository (allocation, red-black tree, hashing, file streams, strtod/snprintf) are modelled in harness/rt.cpp, harness/shadow and symex/exec.cpp"] + c.chk.get("assumes", []),
          "coverage": {"states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": nvalid[0],
                       "samples": [{"entry": j["entry"], "params": j.get("params", {}), "inputs": s["vector"][:40], "observed": s["obs"][:12]} for _, j, r in done for s in r["samples"][:1]][:12],
                       "meaning": "states: symbolic states created (paths and splits); transitions: IR instructions executed symbolically; traces_validated_against_impl: sampled symbolic paths re-run natively with equal observations",
                       "complete_within_bounds": not problems and not violations and not only, "problems": problems[:20],
                       "bounds": c.chk["bounds"], "outside_bounds": c.chk.get("outside", ""), "code": variants,
                       "functions_encoded": funcs, "lines_encoded": {os.path.relpath(f, REPO): len(l) for f, l in sorted(lines.items()) if "json.hpp" not in f},
                       "paths": tot("paths"), "forks": tot("forks"), "merged": tot("merged"), "queries_discharged": tot("queries"), "solver_calls": tot("solver_calls"),
                       "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"), "solver_time_s": round(tot("solver_time"), 2),
                       "assertions_evaluated": tot("checks"), "assertions_decided_by_solver": tot("checks_symbolic"),
                       "runs": [{"entry": j["entry"], "params": j.get("params", {}), "code": v, "paths": r["paths"], "queries": r["queries"], "solver_time_s": round(r["solver_time"], 2), "time_s": r["time"], "complete": not r["inconclusive"]} for v, j, r in done],
                       "compile_s": round(tcomp, 1)}}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in knownhit}:
        k = json.loads(k); log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
        v = violations[0]; rp = os.path.join(rd, "%s-%s.json" % (pid, v["entry"])); json.dump(dict(v, property=pid), open(rp, "w"), indent=1)
        log("%s: %s at %s" % (v["kind"], v["msg"], v["where"][:600]))
        log("inputs:", " ".join("%s=%s" % (n, x) for n, x in v["vector"][:60]))
        log("native replay: exit %s\n%s" % (v["native_exit"], v["native_output"][-600:]))
        log("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    log("%s %s: %d paths, %d queries (%.1fs solver), %d replayed natively, %.0fs" % (pid, tier, tot("paths"), tot("queries"), tot("solver_time"), nvalid[0], time.time() - t0))
    if problems:
        for p in problems[:10]: log("NO-VERDICT:", p)
        sys.exit(2)
    log("HELD property=%s" % pid); sys.exit(0)
main()
