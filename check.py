#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its code.

  check.py C01 [quick|thorough]     run the check (tier defaults to $VERIF_TIER or quick)
  check.py --replay FILE            run one recorded counterexample against the real code
"""
import sys, os, json, subprocess, time, shutil, hashlib, concurrent.futures as cf, threading, re
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("HYCU_REPO", "/repo")
sys.path.insert(0, V)
from props import PROPS
BIN = os.path.join(V, "engine", "bin")
NCPU = os.cpu_count() or 4
FORCED = sum((["-include", x] for x in ("string", "flint/ulong_extras.h", "flint/fmpz.h", "flint/nmod_poly.h", "flint/nmod_poly_factor.h",
    "flint/fq_nmod_poly.h", "flint/fq_nmod_poly_factor.h", "boost/serialization/vector.hpp")), [])
IRF = ["-O1", "-c", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-fno-pie", "-w", "-DHSE_ENGINE"]

def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
class BuildError(Exception): pass

def need_engine():
    h = hashlib.sha256()
    for d in ("engine", "models"):
        for r, ds, fs in os.walk(os.path.join(V, d)):
            if r.startswith(BIN): continue
            ds.sort()
            for f in sorted(fs): h.update(f.encode()); h.update(open(os.path.join(r, f), "rb").read())
    st = os.path.join(BIN, "stamp")
    if os.path.exists(st) and open(st).read() == h.hexdigest() and os.path.exists(os.path.join(BIN, "hse")): return
    os.makedirs(BIN, exist_ok=True)
    o = run([os.path.join(V, "engine", "build.sh"), BIN])
    if o.returncode: raise BuildError("engine: " + o.stdout)
    m = os.path.join(V, "models")
    def comp(f):
        c = f.endswith(".c")
        cmd = (["clang-18", "-std=gnu11", "-fgnu89-inline"] if c else ["clang++-18", "-std=gnu++17"]) + ["-DHSE_ENGINE", "-I", m + "/include", "-O1", "-c", "-emit-llvm",
            "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin", "-fno-pic", "-fno-pie", "-w", os.path.join(m, f), "-o", os.path.join(BIN, f + ".bc")]
        o = run(cmd)
        if o.returncode: raise BuildError(o.stdout)
        return os.path.join(BIN, f + ".bc")
    with cf.ThreadPoolExecutor(NCPU) as ex: bcs = list(ex.map(comp, ["rt_std.cc", "rt_fs.cc", "rt_flint.cc", "rt_c.c"]))
    o = run(["llvm-link-18"] + bcs + ["-o", os.path.join(BIN, "rt.bc")])
    if o.returncode: raise BuildError(o.stdout)
    open(st, "w").write(h.hexdigest())

class Builder:
    def __init__(self, work): self.w = work; self.lock = threading.Lock(); self.fut = {}; self.ex = cf.ThreadPoolExecutor(NCPU)
    def once(self, key, fn):
        with self.lock:
            if key not in self.fut: self.fut[key] = self.ex.submit(fn)
            return self.fut[key]
    def obj(self, cmd, out):
        def go():
            o = run(cmd + ["-o", out])
            if o.returncode: raise BuildError(os.path.basename(out) + ": " + o.stdout[-1500:])
            return out
        return self.once(out, go)
    def name(self, kind, src, flags, ext): return os.path.join(self.w, kind + "_" + hashlib.md5((src + "|" + " ".join(flags)).encode()).hexdigest()[:12] + "_" + os.path.basename(src) + ext)
    def inc(self, u, native):
        i = ["-I", V + "/harness", "-I", R + "/src"]
        if native: i = (["-I", V + "/models/mpi"] if u.get("nmpi") else []) + i + ["-I", V + "/native/include"]
        else: i = ["-I", V + "/models/include", "-I", V + "/models/mpi"] + i
        return i
    def kernel(self, u, native, src, header, pre, defs, name, new):
        """device code: the text the compiled host program would hand to the OpenCL compiler, compiled by clang's OpenCL front end"""
        b = os.path.join(self.w, "cl_" + new); t = b + ".cc"
        def go():
            with open(t, "w") as f: f.write('#include "%s"\n%s\n#include <cstdio>\nstatic const char *text =\n#include "%s"\nint main() { puts(text); }\n' % (header, "\n".join(pre), src))
            o = run(["g++", "-std=gnu++17", "-w"] + self.inc(u, True) + u.get("cflags", []) + [t, "-o", b])
            if o.returncode: raise BuildError(o.stdout[-1500:])
            text = subprocess.run([b], stdout=subprocess.PIPE, text=True).stdout
            open(b + ".cl", "w").write(text)
            o = run(["clang-18", "-x", "cl", "-cl-std=CL1.2", "-O1", "-w", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D%s=%s" % (name, new)] + list(defs) + [b + ".cl", "-o", b + "_.ll"])
            if o.returncode: raise BuildError("device code: " + o.stdout[-1500:])
            open(b + ".ll", "w").write(open(b + "_.ll").read().replace("spir_kernel ", ""))
            for c in ([["llvm-as-18", b + ".ll", "-o", b + ".bc"], ["clang-18", "-w", "-c", b + ".ll", "-o", b + ".o"]]):
                o = run(c)
                if o.returncode: raise BuildError(o.stdout[-1500:])
            return b
        return self.once(b, go).result() + (".o" if native else ".bc")
    def ir(self, u):
        fl = ["clang++-18", "-std=gnu++17"] + self.inc(u, False) + FORCED + IRF + u.get("cflags", [])
        h = self.obj(fl + ["-g", os.path.join(V, "harness", u["h"])], self.name("h", u["h"], fl, ".bc"))
        ss = [self.obj(fl + ["-g", os.path.join(R, "src", s)], self.name("r", s, fl, ".bc")) for s in u["src"]]
        bcs = [h.result()] + [s.result() for s in ss] + [self.kernel(u, False, *k) for k in u.get("cl", [])]
        out = self.name("l", u["h"] + "+".join(u["src"]), fl, ".bc")
        return self.obj(["llvm-link-18"] + bcs + [os.path.join(BIN, "rt.bc")], out).result()
    def native(self, u, mode, entry):
        """mode real: real FLINT; model: FLINT model in its place"""
        fl = ["g++", "-std=gnu++17", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-DHSE_NATIVE"] + self.inc(u, True) + FORCED + u.get("cflags", []) + u.get("ncflags", [])
        js = [self.obj(fl + ["-c", os.path.join(V, "harness", u["h"])], self.name("n", u["h"], fl, ".o"))]
        js += [self.obj(fl + ["-c", os.path.join(R, "src", s)], self.name("n", s, fl, ".o")) for s in u["src"]]
        js.append(self.obj(fl + ["-c", "-DHSE_ENTRY=" + entry, "-I", V + "/models/include/..", "-include", V + "/models/include/hse_api.h", os.path.join(V, "native", "rt.cc")], self.name("n", "rt.cc", fl + [entry], ".o")))
        for x in u.get("nsrc", []): js.append(self.obj(fl + ["-c", os.path.join(V, "native", x)], self.name("n", x, fl, ".o")))
        if mode == "model": js.append(self.obj(["g++", "-std=gnu++17", "-O1", "-g", "-fsanitize=address", "-w", "-c", "-I", V + "/native/include", os.path.join(V, "models", "rt_flint.cc")], self.name("n", "rt_flint.cc", fl, ".o")))
        libs = ["-lboost_filesystem", "-lboost_program_options", "-lboost_system", "-lyaml-cpp", "-lboost_serialization", "-lpthread", "-ldl"]
        libs = (["-lflint", "-lgmp"] if mode == "real" else ["-lgmp"]) + libs
        objs = [j.result() for j in js] + [self.kernel(u, True, *k) for k in u.get("cl", [])]
        out = self.name("x" + mode, u["h"] + "+".join(u["src"]), fl + [entry], "")
        return self.obj(["g++", "-fsanitize=address", "-rdynamic"] + objs + libs + u.get("nlibs", []), out).result()

def write_in(fn, inst, v):
    with open(fn, "w") as f:
        for k, x in inst.get("a", {}).items(): f.write("p %s %d\n" % (k, x))
        for k, x in v["inputs"].items(): f.write("i %s %d\n" % (k, x))
        for a, b in v.get("sched", []): f.write("s %d %d\n" % (a, b))

def exec_native(exe, infile, scratch, timeout=40):
    """-> (verdict, text, obs); verdict: ok, assert, crash, hang, assume, model"""
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    obs = scratch + ".obs"
    if os.path.exists(obs): os.unlink(obs)
    env = dict(os.environ, HSE_IN=infile, HSE_OBS=obs, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=70:allocator_may_return_null=1:detect_stack_use_after_return=0", HOME=scratch, TMPDIR=scratch)
    p = subprocess.Popen([exe], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); rc = "timeout"
    out = out.decode(errors="replace")[-6000:]
    o = []
    if os.path.exists(obs):
        for l in open(obs):
            l = l.rstrip("\n").split(" ", 1); o.append((l[0], l[1] if len(l) > 1 else ""))
    shutil.rmtree(scratch, ignore_errors=True)
    verdict = {0: "ok", 77: "assert", 78: "assume", 79: "model", "timeout": "hang", 75: "hang"}.get(rc, "crash")
    return verdict, out, o

MODEL_MSG = re.compile(r"^model:")
def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); P = PROPS[pid]; budget = P.get("budget", {}).get(tier, 520 if tier == "quick" else 3600)
    work = os.path.join(V, "work", "%s-%d" % (pid, os.getpid())); os.makedirs(work)
    try: return check(pid, P, tier, seed, t0, budget, work)
    except BuildError as e: print("BUILD-ERROR", str(e)[-4000:], file=sys.stderr); return 2
    finally: shutil.rmtree(work, ignore_errors=True)

def obs_equal(a, b, ends):
    """a from the engine [(name, value)], b native"""
    b = [x for x in b if x[0] != "$end"]
    return [(n, str(v)) for n, v in a] == [(n, v) for n, v in b]

def check(pid, P, tier, seed, t0, budget, work):
    need_engine(); B = Builder(work)
    only = os.environ.get("VERIF_ONLY")
    insts = [i for i in P["instances"] if tier == "thorough" or i.get("tier", "quick") == "quick"]
    if only: insts = [i for i in insts if re.search(only, i["e"] + " " + " ".join("%s=%s" % x for x in i.get("a", {}).items()))]
    units = {}
    for i in insts: units[i["u"]["h"] + "|" + str(sorted(i["u"].get("cflags", [])))] = i["u"]
    irs = {}
    for k, u in units.items(): pass
    ulist = list(units.items())
    pool = cf.ThreadPoolExecutor(max(4, len(ulist)))
    futs = {k: pool.submit(B.ir, u) for k, u in ulist}
    deadline = t0 + budget
    def one(ix):
        i = insts[ix]; u = i["u"]; bc = futs[u["h"] + "|" + str(sorted(u.get("cflags", [])))].result()
        out = os.path.join(work, "o%d.json" % ix); lim = i.get("t", 120)
        lim = int(min(lim, deadline - time.time()))
        if lim < 5: return ix, None, "no time left"
        cmd = [os.path.join(BIN, "hse"), bc, "--entry", i["e"], "--out", out, "--time", str(lim), "--max-viol", str(i.get("mv", 4)), "--tests", str(i.get("tests", P.get("tests", 6)))]
        for k, x in i.get("a", {}).items(): cmd += ["--arg", "%s=%d" % (k, x)]
        cmd += [str(x) for x in i.get("x", [])]
        try: o = run(["prlimit", "--as=%d" % (i.get("mem", 6) << 30)] + cmd, timeout=lim + 60)
        except subprocess.TimeoutExpired: return ix, None, "engine did not stop in time"
        if os.environ.get("VERIF_V"): print("[%5.1f]" % (time.time() - t0), i["e"], i.get("a", {}), o.stdout.strip()[-700:], file=sys.stderr, flush=True)
        if o.returncode not in (0, 1): return ix, None, "engine exit %s: %s" % (o.returncode, o.stdout[-600:])
        try: return ix, json.load(open(out)), o.stdout
        except Exception as e: return ix, None, "no result: %s" % e
    res = {}
    order = sorted(range(len(insts)), key=lambda k: -insts[k].get("w", insts[k].get("t", 120)))
    # native builds run alongside
    nat_f = {}
    def nat(u, mode, entry):
        k = (u["h"], str(u.get("cflags")), mode, entry)
        with B.lock:
            if k not in nat_f: nat_f[k] = pool2.submit(B.native, u, mode, entry)
        return nat_f[k].result()
    pool2 = cf.ThreadPoolExecutor(16)
    with cf.ThreadPoolExecutor(P.get("jobs", NCPU)) as ex:
        for f in cf.as_completed([ex.submit(one, k) for k in order]):
            ix, j, msg = f.result(); res[ix] = (j, msg)
    # ---- violations: replay each one against the real code
    known = json.load(open(os.path.join(V, "known_findings.json"))) if os.path.exists(os.path.join(V, "known_findings.json")) else {"known": []}
    viols = []; unconfirmed = []; modelgaps = []
    # the same violation found by several instances is replayed until one of them is confirmed
    groups = {}
    for ix in sorted(res):
        j, msg = res[ix]; i = insts[ix]
        if not j: continue
        for v in j["violations"]:
            if MODEL_MSG.search(v["msg"]): modelgaps.append((i["e"], v["msg"])); continue
            groups.setdefault((i["e"], v["kind"], v["msg"], v["loc"]), []).append((ix, i, v))
    vr_end = time.time() + 150
    def confirm(n, g):
        out_ = []
        for m, (ix, i, v) in enumerate(g):
            if m >= 6 or (out_ and time.time() > vr_end): break
            rep = None; tried = []
            for mode in i["u"].get("replay", ["real"]):
                try: exe = nat(i["u"], mode, i["e"])
                except BuildError as e: tried.append("native build failed: " + str(e)[-300:]); continue
                inf = os.path.join(work, "in%d.txt" % n); write_in(inf, i, v)
                verdict, out, obs = exec_native(exe, inf, os.path.join(work, "scratch%d" % n), timeout=40 if v["kind"] != "hang" else 20)
                tried.append("%s: %s" % (mode, verdict))
                if verdict in ("assert", "crash", "hang"): rep = (mode, verdict, out); break
            rec = dict(property=pid, entry=i["e"], args=i.get("a", {}), kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"], inputs=v["inputs"], sched=v["sched"], tried=tried)
            if rep: rec.update(mode=rep[0], verdict=rep[1], output=rep[2])
            out_.append((bool(rep), rec, i, v))
            if rep and not known.get("known"): break
        return out_
    with cf.ThreadPoolExecutor(6) as ex:
        for r in [f.result() for f in [ex.submit(confirm, n, g) for n, g in enumerate(groups.values())]]:
            for ok, rec, i, v in r:
                if ok: viols.append((rec, i, v))
                elif not any(x[0] for x in r): unconfirmed.append(rec)
    # ---- sampled paths: the real code must observe the same
    validated = 0; diverged = []; samples = []
    vt_end = time.time() + P.get("vtime", {}).get(tier, 40 if tier == "quick" else 200)
    jobs = []
    for ix in sorted(res):
        j, msg = res[ix]; i = insts[ix]
        if not j or i.get("novalidate") or i["u"].get("novalidate"): continue
        for t in j["tests"][:i.get("tests", P.get("tests", 6))]:
            jobs.append((ix, i, t))
    # spread over the instances
    if viols: jobs = [] # a violation is reported in any case
    def val(n, ix, i, t):
        if time.time() > vt_end: return None
        mode = i["u"].get("replay", ["real"])[0]
        exe = nat(i["u"], mode, i["e"])
        inf = os.path.join(work, "v%d.txt" % n); write_in(inf, i, t)
        verdict, out, obs = exec_native(exe, inf, os.path.join(work, "vs%d" % n), timeout=30)
        return verdict, out, obs
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [(i, t, ex.submit(val, n, ix, i, t)) for n, (ix, i, t) in enumerate(jobs)]
        for i, t, f in fs:
            try: r = f.result()
            except BuildError as e: diverged.append(dict(entry=i["e"], why="native build failed: " + str(e)[-300:])); continue
            if not r: continue
            verdict, out, obs = r
            if t["end"] in ("end",) and verdict == "ok" and obs_equal(t["obs"], obs, t["end"]): validated += 1
            elif t["end"] != "end" and verdict in ("crash", "ok"): validated += 1
            else: diverged.append(dict(entry=i["e"], args=i.get("a", {}), end=t["end"], inputs=t["inputs"], sched=t.get("sched"), engine=t["obs"][:40], native=obs[:40], verdict=verdict, out=out[-800:]))
            if len(samples) < 4: samples.append(dict(entry=i["e"], args=i.get("a", {}), inputs=dict(list(t["inputs"].items())[:40]), schedule=t.get("sched", [])[:20], observed=t["obs"][:16]))
    # ---- evidence
    inst_ev = []; fn = {}; lines = {}
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, paths=0, states=0, steps=0, forks=0, merges=0, asserts=0, sched_points=0, solver_s=0.0, sweep_queries=0)
    complete = True
    for ix, i in enumerate(insts):
        j, msg = res.get(ix, (None, "not run"))
        e = dict(entry=i["e"], bounds=i.get("a", {}), what=i.get("what", ""))
        if not j: e["result"] = "no answer: " + msg[-300:]; complete = False
        else:
            missing = [r for r in i.get("reach", ["end"]) if r not in j["reach"]]
            e.update(result=("complete" if j["complete"] else "incomplete: " + "; ".join(j["incomplete"])[:400]), paths=j["paths"], queries=j["queries"] + j.get("sweep_queries", 0), unsat=j["unsat"], sat=j["sat"], unknown=j["unknown"],
                     assertions=j["asserts_checked"], solver_s=round(j["solver_s"], 2), wall_s=round(j["wall_s"], 2), reached=j["reach"], violations=len(j["violations"]))
            if missing: e["result"] = "vacuous: never reached " + ",".join(missing); complete = False
            if not j["complete"]: complete = False
            for k, a in (("queries", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("unknown", "unknown"), ("paths", "paths"), ("states", "states"), ("steps", "steps"), ("forks", "forks"), ("merges", "merges"), ("asserts", "asserts_checked"), ("sched_points", "sched_points"), ("solver_s", "solver_s"), ("sweep_queries", "sweep_queries")):
                tot[k] += j.get(a, 0)
            for f, l in j["functions"].items(): fn.setdefault(f, set()).update(l)
            for f, l in j["lines"].items(): lines.setdefault(f, set()).update(l)
        inst_ev.append(e)
    if modelgaps: complete = False
    rep_dir = os.path.join(V, "replays"); shutil_dir = None
    bad = 0; knowns = []; lines_out = []
    seen = set()
    for rec, i, v in viols:
        m = next((k for k in known.get("known", []) if k["property"] == pid and all(str(rec.get(a)) == str(b) for a, b in k["match"].items())), None)
        if m: knowns.append(m); continue
        key = (rec["entry"], rec["kind"], rec["msg"], rec["loc"])
        if key in seen: continue
        seen.add(key); os.makedirs(rep_dir, exist_ok=True)
        fnm = os.path.join(rep_dir, "%s-%s-%d.json" % (pid, rec["entry"], bad)); json.dump(rec, open(fnm, "w"), indent=1)
        lines_out.append("VIOLATION property=%s replay=%s" % (pid, fnm)); bad += 1
        print("  %s(%s): %s: %s at %s; confirmed on the real code (%s, %s)" % (rec["entry"], rec["args"], rec["kind"], rec["msg"], rec["loc"], rec["mode"], rec["verdict"]))
    for k in known.get("known", []):
        if k["property"] == pid: print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k in knowns else " (not seen in this run)"))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "model_checking"),
        coverage=dict(states=tot["states"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples,
            exhaustive=bool(complete), queries=tot["queries"] + tot["sweep_queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
            symbolic_paths=tot["paths"], path_merges=tot["merges"], assertions_checked=tot["asserts"], scheduling_points=tot["sched_points"],
            functions={f[len(R) + 1:]: sorted(l) for f, l in sorted(fn.items())}, lines_executed={f[len(R) + 1:]: len(l) for f, l in sorted(lines.items())},
            instances=inst_ev, outside=P.get("outside", ""), unconfirmed=unconfirmed[:10], diverged=diverged[:10], model_gaps=modelgaps[:10]),
        assumptions=P.get("assume", []), wall_s=round(time.time() - t0, 2), violations=bad)
    if P.get("level") == "fault_enumeration" or P.get("level") == "exploration":
        ev["coverage"].update(evaluations=tot["paths"], distinct_nontrivial=tot["paths"], rule="one evaluation per explored symbolic path; paths differ in at least one solver-decided branch")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for r in unconfirmed: print("  note: %s: %s: %s at %s did not reproduce on the real code (%s)" % (r["entry"], r["kind"], r["msg"], r["loc"], "; ".join(r["tried"])))
    for r in modelgaps: print("  note: model gap", r)
    for d in diverged: print("  note: real code and encoding observe differently:", d["entry"], d.get("args"), d.get("verdict"), d.get("why", ""))
    for e in inst_ev:
        if e["result"] != "complete": print("  note: %s %s: %s" % (e["entry"], e["bounds"], e["result"]))
    for l in lines_out: print(l)
    print("%s %s: %d instances, %d paths, %d queries, %d assertions, %d traces validated, %.1fs: %s%s" % (pid, tier, len(insts), tot["paths"], tot["queries"] + tot["sweep_queries"], tot["asserts"], validated, time.time() - t0, "VIOLATED" if bad else "held", "" if complete else " (incomplete)"))
    return 1 if bad else 0

def replay(fn):
    rec = json.load(open(fn)); P = PROPS[rec["property"]]
    i = next(x for x in P["instances"] if x["e"] == rec["entry"] and x.get("a", {}) == rec["args"])
    work = os.path.join(V, "work", "replay-%d" % os.getpid()); os.makedirs(work)
    try:
        B = Builder(work); exe = B.native(i["u"], rec.get("mode", "real"), i["e"]); inf = os.path.join(work, "in.txt"); write_in(inf, i, rec)
        v, out, obs = exec_native(exe, inf, os.path.join(work, "scratch")); print(out); print("verdict:", v); return 0 if v == "ok" else 1
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
