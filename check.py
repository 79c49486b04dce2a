#!/usr/bin/env python3
"""Run the checks of one property: regenerate the encoding from /repo's current sources, let the
symbolic executor + SMT solver decide every case, replay every counterexample against the real code."""
import sys, os, json, subprocess, threading, tempfile, shutil, time, glob, hashlib, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
from specs import SPECS
INC = ["modules/core/include", "modules/process/include", "modules/algorithm/include", "modules/highgui/include"]
SRC = ["modules/core/src/c_src", "modules/process/src/c_src", "modules/algorithm/src", "modules/highgui/src"]
DEFS = ["-DUSE_SDL=1", "-DX11_switch=1", "-D_cplusplus", "-Dgdal_switch=1"]
IFL = ["-I" + os.path.join(HERE, "harness")] + ["-I" + os.path.join(REPO, i) for i in INC] + ["-I/usr/include/gdal", "-I/usr/include/SDL"]
CF = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-builtin", "-fno-discard-value-names", "-emit-llvm", "-c", "-w", "-Wno-error", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-Wno-error=incompatible-pointer-types", "-Wno-error=implicit-int", "-Wno-error=return-type"]
NPROC = max(2, min(8, os.cpu_count() or 2))

class Broken(Exception): pass
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def repo_sources(spec):
    out = []
    for d in SRC + spec.get("extra_src", []): out += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return out
def flags(spec): return spec.get("cflags", []) + ["-I" + os.path.join(REPO, d) for d in spec.get("extra_inc", [])]

def cxx_sources(): return sorted(s for d in ("modules/core/src/cxx_src", "modules/process/src/cxx_src") for s in glob.glob(os.path.join(REPO, d, "*.cpp")))
def build_bitcode(spec, work):
    jobs = []
    for s in repo_sources(spec):
        if os.path.basename(s) in ("smshow.c", "window_gtk.c"): continue   # X11/SDL/GTK front-end: no property depends on it
        jobs.append((s, os.path.join(work, hashlib.md5(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".bc"), "clang", ["-std=gnu17"] + DEFS))
    CX = ["-std=gnu++17", "-I" + os.path.join(HERE, "shimcxx"), "-I" + os.path.join(REPO, "modules/core/src"), "-fno-threadsafe-statics", "-fno-exceptions", "-include", os.path.join(HERE, "shimcxx/prelude.h"), "-DSX_ENGINE"] + DEFS
    if spec.get("cxx"):
        for s in cxx_sources(): jobs.append((s, os.path.join(work, hashlib.md5(s.encode()).hexdigest()[:8] + "_x.bc"), "clang++", CX))
    for h in spec["harness"]:
        p = os.path.join(HERE, "harness", h)
        if h.endswith(".cpp"): jobs.append((p, os.path.join(work, "h_" + h + ".bc"), "clang++", CX))
        else: jobs.append((p, os.path.join(work, "h_" + h + ".bc"), "clang", ["-std=gnu17"] + DEFS + spec.get("defs", [])))
    jobs.append((os.path.join(HERE, "models/libc.c"), os.path.join(work, "m_libc.bc"), "clang", ["-std=gnu17"] + ["-DFCAP=%d" % spec.get("fcap", 16384)]))
    def one(j):
        src, out, cc, fl = j
        r = sh([cc] + CF + fl + flags(spec) + IFL + [src, "-o", out])
        return (src, out, r.returncode, r.stdout)
    with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, jobs))
    bad = [(s, o) for s, _, rc, o in res if rc]
    if bad: raise Broken("cannot compile: " + "\n".join("%s\n%s" % b for b in bad)[:4000])
    allbc, fin = os.path.join(work, "all.bc"), os.path.join(work, "final.bc")
    r = sh(["llvm-link", "-o", allbc] + [o for _, o, _, _ in res])
    if r.returncode: raise Broken("llvm-link: " + r.stdout[:3000])
    r = sh(["opt", "-passes=function(lowerinvoke,mem2reg,lowerswitch,mergereturn)", allbc, "-o", fin])
    if r.returncode: raise Broken("opt: " + r.stdout[:3000])
    return fin

NATIVE = {  # replay builds
    "asan": ["-O0", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "pattern": ["-O0", "-g", "-ftrivial-auto-var-init=pattern"],
    "zero": ["-O0", "-g", "-ftrivial-auto-var-init=zero"],
}
class Native:
    """Harness + real code compiled natively (gcc, as the repository is built)."""
    def __init__(self, spec, work): self.spec, self.work, self.objs, self.bins, self.lock = spec, work, {}, {}, threading.RLock()
    def build(self, variant):
        if variant in self.objs: return self.objs[variant]
        d = os.path.join(self.work, "nat_" + variant); os.makedirs(d, exist_ok=True)
        jobs = []
        for s in repo_sources(self.spec):
            if os.path.basename(s) in ("smshow.c", "window_gtk.c"): continue
            jobs.append((s, os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + ".o"), "gcc", DEFS))
        CX = ["-std=gnu++17", "-I" + os.path.join(REPO, "modules/core/src")] + DEFS
        if self.spec.get("cxx"):
            for s in cxx_sources(): jobs.append((s, os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + ".o"), "g++", CX))
        for h in self.spec["harness"]:
            p = os.path.join(HERE, "harness", h)
            if h.endswith(".cpp"): jobs.append((p, os.path.join(d, h + ".o"), "g++", CX))
            else: jobs.append((p, os.path.join(d, h + ".o"), "gcc", DEFS + self.spec.get("defs", [])))
        def one(j):
            src, out, cc, fl = j
            r = sh([cc] + NATIVE[variant] + ["-fno-builtin", "-w", "-c", "-Wno-error"] + fl + flags(self.spec) + IFL + [src, "-o", out]); return src, out, r.returncode, r.stdout
        with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, jobs))
        bad = [(s, o) for s, _, rc, o in res if rc]
        if bad: raise Broken("native compile: " + str(bad)[:3000])
        self.objs[variant] = [o for _, o, _, _ in res]; return self.objs[variant]
    def binary(self, variant, entry):
        with self.lock: return self.binary_locked(variant, entry)
    def binary_locked(self, variant, entry):
        k = (variant, entry)
        if k in self.bins: return self.bins[k]
        objs = self.build(variant); out = os.path.join(self.work, "nat_" + variant, "run_" + entry); cxx = any(h.endswith(".cpp") for h in self.spec["harness"])
        rt = out + ".rt.o"
        r = sh(["gcc"] + NATIVE[variant] + ["-fno-builtin", "-w", "-DSX_ENTRY=" + entry, "-I" + os.path.join(HERE, "harness"), "-c", os.path.join(HERE, "native/sx_native.c"), "-o", rt])
        if r.returncode: raise Broken("native rt: " + r.stdout[:2000])
        wraps = ["exit", "malloc", "calloc", "realloc", "free"] + self.spec.get("wrap", [])
        r = sh(["g++" if cxx else "gcc"] + NATIVE[variant] + objs + [rt, "-o", out] + ["-Wl,--wrap=" + w for w in wraps] + self.spec.get("ldlibs", []) + ["-lm"])
        if r.returncode: raise Broken("native link: " + r.stdout[:3000])
        self.bins[k] = out; return out
    def run(self, variant, entry, params, inputs, fill=None):
        b = self.binary(variant, entry); d = tempfile.mkdtemp(dir=self.work); inp = os.path.join(d, "inputs.txt")
        with open(inp, "w") as f:
            for n, h in inputs: f.write("%s %s\n" % (n, h))
        cwd = os.path.join(d, "cwd"); os.mkdir(cwd)
        env = {"PATH": "/usr/bin:/bin", "SX_INPUTS": inp, "SX_CWD": cwd, "ASAN_OPTIONS": "detect_leaks=0:exitcode=75:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % int(fill or "be", 16)}
        if fill: env["SX_FILL"] = fill
        for k, v in params.items(): env["SX_P_" + k] = str(v)
        try: r = subprocess.run([b], env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40); rc, o = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e: rc, o = -14, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
        shutil.rmtree(d, ignore_errors=True); return rc, o
def bad_rc(rc): return rc in (75, 76, 77) or (rc < 0) or rc in (134, 136, 139, 142)

def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(("#", "fixed:")): out.append(json.loads(l))
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--case", default=None); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); pid = a.property; spec = SPECS[pid]; t0 = time.time(); thorough = a.tier == "thorough"
    engine = os.path.join(HERE, "build/symx")
    srcs = glob.glob(os.path.join(HERE, "engine/*.*"))
    if not os.path.exists(engine) or any(os.path.getmtime(s) > os.path.getmtime(engine) for s in srcs):
        r = sh(["bash", os.path.join(HERE, "engine/build.sh"), engine])
        if r.returncode: print(r.stdout); sys.exit(2)
    work = tempfile.mkdtemp(prefix="sx_%s_" % pid); rc = 2
    try: rc = run(pid, spec, a, work, engine, t0, thorough)
    except Broken as e: print("CHECK-ERROR property=%s %s" % (pid, e)); rc = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)
    sys.exit(rc)

def run(pid, spec, a, work, engine, t0, thorough):
    bc = build_bitcode(spec, work); nat = Native(spec, work)
    cases = [c for c in spec["cases"] if (thorough or c.get("tier", "quick") == "quick") and (not a.case or a.case in c["name"])]
    total = 3000 if thorough else 600
    found, procs, plock = threading.Event(), set(), threading.Lock()
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    def one(c):
        x = attempt(c)
        if x[1] and x[1]["status"] != "complete" and x[1].get("uninit_reads") and not x[1]["errors"] and not found.is_set():
            # undecided with arbitrary uninitialised memory: look for a violation with that memory holding zeros (never counts as an answer)
            y = attempt(c, 0)
            if y[1] and any(e.get("hit") for e in y[1]["errors"]): return y
        return x
    def attempt(c, fill=None):
        out = os.path.join(work, "r_" + re.sub(r"\W", "_", c["name"]) + ("" if fill is None else "_f%d" % fill) + ".json"); left = total - (time.time() - t0)
        if left < 5: return c, None, "check budget exhausted"
        cap = min(left, c.get("time", 1500 if thorough else 300), 1e9 if fill is None else 100)
        cmd = [engine, bc, "--entry", c["entry"], "--out", out, "--max-time", str(cap), "--query-ms", str(int(cap * 1000)), "--max-steps", str(c.get("steps", 20000000))]
        if fill is not None: cmd += ["--fill", str(fill)]
        for k, v in c.get("params", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
        if found.is_set(): return c, None, "not run: a violation was already confirmed"
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with plock:
            procs.add(p)
            if found.is_set(): p.kill()
        try: o, _ = p.communicate(timeout=cap + 30)
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); return c, None, "engine timeout"
        finally:
            with plock: procs.discard(p)
        if p.returncode < 0 and found.is_set(): return c, None, "stopped: a violation was already confirmed"
        if not os.path.exists(out): return c, None, "engine failed rc=%d %s" % (p.returncode, o[-2000:])
        r = json.load(open(out))
        for e in r["errors"]:   # replayed at once: the first confirmed violation ends the run
            e["hit"] = confirm(c, e)
            if e["hit"] and not finding(c, e) and not os.environ.get("SX_ALL"):
                found.set()
                with plock:
                    for q in procs: q.kill()
                break
        return c, r, None
    def confirm(c, e):
        # replay against the real code
        for v, fill in [("asan", None), ("asan", "00"), ("asan", "ff"), ("pattern", "ff"), ("zero", "00"), ("pattern", "01"), ("zero", "7f"), ("asan", "41")]:
            rc, o = nat.run(v, c["entry"], c.get("params", {}), e["inputs"], fill)
            if bad_rc(rc): return (v, fill, rc, o)
        return None
    def finding(c, e):
        for k in known:
            if k["case"] == c["name"] and k["kind"] == e["kind"] and k["match"] in (e["msg"] + " " + e["fn"]): return k
    cases.sort(key=lambda c: -c.get("weight", 1))
    with ThreadPoolExecutor(NPROC) as ex: results = list(ex.map(one, cases))
    violations, incon, findings, spurious, validated, mism, samples = [], [], [], [], 0, [], []
    rdir = os.path.join(HERE, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
    agg = dict(paths=0, queries=0, unsat=0, sat=0, asserts=0, assert_queries=0, solver_s=0.0, forks=0, merges=0, steps=0); funcs, ext, ufs = set(), set(), set(); per = []
    for c, r, err in results:
        if r is None: incon.append((c["name"], err)); continue
        for k in agg: agg[k] += r[k]
        funcs |= set(re.sub(r"\.\d+$", "", f) for f in r["functions"]); ext |= set(r["externals"]); ufs |= set(r["uninterpreted"])
        per.append(dict(case=c["name"], status=r["status"], paths=r["paths"], queries=r["queries"], asserts=r["asserts"], solver_s=round(r["solver_s"], 2), max_query_s=round(r["max_query_s"], 2), wall_s=round(r["wall_s"], 2), bounds=c.get("bounds", spec.get("bounds", ""))))
        if a.v: print("  %-38s %-12s paths=%d asserts=%d q=%d solver=%.1fs wall=%.1fs errs=%d" % (c["name"], r["status"][:60], r["paths"], r["asserts"], r["queries"], r["solver_s"], r["wall_s"], len(r["errors"])))
        new_violation = False; unconf = []
        for e in r["errors"]:
            if "hit" not in e: continue   # the run ended with an earlier violation
            hit = e["hit"]
            if a.v: print("    ERR %s: %s @ %s replay=%s" % (e["kind"], e["msg"], e["loc"], hit[:3] if hit else None))
            if a.v and a.case: print("     ", e["inputs"][:12], e["stack"])
            if not hit: unconf.append(e); spurious.append(dict(case=c["name"], **{k: e[k] for k in ("kind", "msg", "loc", "uninit")})); continue
            kf = finding(c, e)
            if kf: findings.append(kf); continue
            rp = os.path.join(rdir, "%s_%s_%d.json" % (pid, re.sub(r"\W", "_", c["name"]), len(violations)))
            json.dump(dict(property=pid, case=c["name"], entry=c["entry"], params=c.get("params", {}), kind=e["kind"], message=e["msg"], location=e["loc"], stack=e["stack"], inputs=e["inputs"], build=hit[0], fill=hit[1], native_rc=hit[2], native_output=hit[3][-3000:], reproduce="python3 %s %s %s" % (os.path.join(HERE, "replay.py"), pid, rp)), open(rp, "w"), indent=1)
            violations.append((rp, c["name"], e)); new_violation = True
        if r["status"] not in ("complete", "max-errors") and not new_violation: incon.append((c["name"], r["status"]))
        elif unconf and not new_violation and not any(f["case"] == c["name"] for f in findings): incon.append((c["name"], "counterexample did not replay: %s %s @%s" % (unconf[0]["kind"], unconf[0]["msg"], unconf[0]["loc"])))
        elif r["status"] == "complete" and not r["errors"]:
            # vacuity: every expected assertion label must have been reached and a path must have completed
            if r["paths"] - (0 if c.get("exit_ok") else r["exit_paths"]) < 1 or r["asserts"] < (0 if c.get("exit_ok") else 1): incon.append((c["name"], "vacuous: no assertion reached on a completed path"))
            for w in r["witnesses"][:2]: samples.append(dict(case=c["name"], inputs=[[n, h[:64]] for n, h in w["inputs"][:8]], observed=[[n, v] for n, v in w["observed"][:8]]))
            for w in r["witnesses"][:1]:   # validate the encoding: same concrete inputs through the real build
                rc, o = nat.run("asan", c["entry"], c.get("params", {}), w["inputs"], None); validated += 1
                if bad_rc(rc) and not w["uninit"]:
                    rp = os.path.join(rdir, "%s_%s_w.json" % (pid, re.sub(r"\W", "_", c["name"]))); e = dict(kind="concrete", msg="real build fails on a solver-generated witness the encoding accepts", loc="", fn="")
                    json.dump(dict(property=pid, case=c["name"], entry=c["entry"], params=c.get("params", {}), inputs=w["inputs"], native_rc=rc, native_output=o[-3000:], kind="concrete"), open(rp, "w"), indent=1); violations.append((rp, c["name"], e))
                elif not w["uninit"]:
                    obs = re.findall(r"SX-OBS (\S+) (\w+)", o); exp = [(n, v) for n, v in w["observed"]]
                    norm = lambda l: [(n, int(v, 16) & (2**64 - 1)) for n, v in l]
                    if norm(obs) != norm(exp): mism.append((c["name"], norm(obs)[:8], norm(exp)[:8]))
    for kf in {json.dumps(k, sort_keys=True) for k in findings}:
        k = json.loads(kf); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec["level"], wall_s=round(wall, 2),
        coverage=dict(explanation="Bounded symbolic execution of the real functions' LLVM IR; each obligation decided for every value within the stated bounds by term rewriting and z3.",
            bounds=spec.get("bounds", ""), outside=spec.get("outside", ""), functions_encoded=sorted(f for f in funcs if not f.startswith(("h_", "sx_", "sxf_"))), cases=per, obligations=agg["asserts"], obligations_sent_to_solver=agg["assert_queries"], discharged=agg["asserts"] - len(violations), queries=agg["queries"], queries_unsat=agg["unsat"], queries_sat=agg["sat"], solver_s=round(agg["solver_s"], 2), paths=agg["paths"], forks=agg["forks"], merges=agg["merges"], instructions=agg["steps"], states=agg["paths"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=samples[:40], stubs=sorted(ext), uninterpreted=sorted(ufs), unconfirmed_counterexamples=spurious, known_findings=[k["what"] for k in findings], encoding_mismatches=[str(m) for m in mism], inconclusive=[list(i) for i in incon]),
        assumptions=spec.get("assumptions", []) + ["clang -O0 IR and the gcc build agree (checked by replaying solver witnesses natively)", "allocation never fails below 256 MiB", "libc is the model in /verif/models/libc.c, libm transcendental functions are uninterpreted on symbolic arguments"],
        violations=[dict(replay=v[0], case=v[1], what=v[2]["msg"], where=v[2].get("loc", "")) for v in violations])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d cases, %d paths, %d obligations, %d solver queries (%.1fs), %d functions, wall %.1fs" % (pid, len(results), agg["paths"], agg["asserts"], agg["queries"], agg["solver_s"], len(ev["coverage"]["functions_encoded"]), wall))
    if mism: print("encoding mismatch (native vs engine):", mism[:3])
    if violations:
        for rp, cn, e in violations[:10]: print("  case %s: %s: %s at %s" % (cn, e["kind"], e["msg"], e.get("loc", "")))
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][0])); return 1
    if incon:
        for i in incon: print("INCONCLUSIVE %s: %s" % i)
        # The property held on everything that was explored; what was not decided is printed and recorded
        # in the evidence. When little was decided the run gives no answer.
        decided = len(results) - len(incon)
        if decided * 2 < len(results): return 2
    return 0
if __name__ == "__main__": main()
