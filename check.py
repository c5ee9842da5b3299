#!/usr/bin/env python3
"""Runs the check of one property: compiles /repo's current sources and the property's harnesses to
LLVM bitcode, executes them symbolically with build/symx, replays every finding natively against the
real code (AddressSanitizer / MemorySanitizer build) and writes evidence/<id>.json.

usage: check.py ID [--tier quick|thorough] [--unit NAME] [-v] [--profile] [--keep]
"""
import sys, os, json, subprocess, time, shutil, tempfile, glob, fcntl, re
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
sys.path.insert(0, VERIF)

CFLAGS = ["-std=gnu99", "-DINSTALL_PATH=\".\"", "-w", "-D__NO_CTYPE"]
WRAPS = ["fopen", "fclose", "getline", "isatty", "rand", "srand", "time", "exit", "atexit"]
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def ensure_engine():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "B=" + os.path.join(VERIF, "build")])


def inc_flags():
    dirs = [d for d, _, _ in os.walk(os.path.join(REPO, "src"))]
    return ["-I" + d for d in sorted(dirs)] + ["-I" + REPO + "/src", "-I" + os.path.join(VERIF, "harness")]


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    return sorted(out)


def src_flags(path):
    f = ["-std=c99", "-DINSTALL_PATH=\".\"", "-w", "-D__NO_CTYPE"]
    if path == os.path.join(REPO, "src/client/main.c"):
        f += ["-Dmain=ccalc_main"]
    return f


PASSES = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,dce)"


def compile_bc(src, out, extra):
    sh(["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-ffp-contract=off", "-fno-strict-aliasing",
        "-gline-tables-only", "-emit-llvm", "-c", src, "-o", out] + inc_flags() + extra)


class Run:
    def __init__(self, prop, tier, args):
        self.prop, self.tier, self.args = prop, tier, args
        self.work = tempfile.mkdtemp(prefix="symx-%s-" % prop)
        self.pool = ThreadPoolExecutor(NCPU)
        self.native_lock = threading.Lock()
        self.native = {}
        self.replays = 0

    def compile_common(self):
        # the shipped rule file, as it is now, for harnesses that load it
        data = open(os.path.join(REPO, "simplification.ruleset"), "rb").read()
        with open(os.path.join(self.work, "ruleset.inc"), "w") as f:
            f.write("static const char ruleset_data[] = {%s};\n" % ",".join(str(b if b < 128 else b - 256) for b in data + b"\0"))
            f.write("static const size_t ruleset_len = %d;\n" % len(data))
        jobs = []
        self.bcs = []
        for s in repo_sources():
            o = os.path.join(self.work, os.path.relpath(s, REPO).replace("/", "_") + ".bc")
            self.bcs.append(o)
            jobs.append(self.pool.submit(compile_bc, s, o, src_flags(s)))
        o = os.path.join(self.work, "minilibc.bc")
        self.bcs.append(o)
        jobs.append(self.pool.submit(compile_bc, os.path.join(VERIF, "engine", "minilibc.c"), o, ["-std=gnu99", "-w"]))
        for j in jobs:
            j.result()

    def compile_unit(self, u):
        d = os.path.join(self.work, u["name"])
        os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "h.bc")
        defs = ["-D%s=%s" % kv for kv in u["defs"].items()] + os.environ.get("EXTRA_DEFS", "").split()
        compile_bc(os.path.join(VERIF, "harness", u["src"]), h, CFLAGS + defs + ["-I" + self.work])
        linked = os.path.join(d, "all.bc")
        sh(["llvm-link", h] + self.bcs + ["-o", linked])
        fin = os.path.join(d, "fin.bc")
        sh(["opt", "-passes=internalize,globaldce," + PASSES + ",globaldce", "--internalize-public-api-list=symx_main", linked, "-o", fin])
        return fin

    def native_build(self, u, san):
        key = (u["name"], san)
        with self.native_lock:
            if key in self.native:
                return self.native[key]
            d = os.path.join(self.work, u["name"], san)
            os.makedirs(d, exist_ok=True)
            cc = {"asan": ["gcc", "-fsanitize=address"], "msan": ["clang", "-fsanitize=memory", "-DRT_MSAN"], "plain": ["gcc"]}[san]
            defs = ["-D%s=%s" % kv for kv in u["defs"].items()]
            common = ["-O0", "-g", "-fno-omit-frame-pointer"] + inc_flags()
            jobs, objs = [], []

            def comp(src, out, extra):
                sh(cc + common + ["-c", src, "-o", out] + extra)
            sdir = os.path.join(self.work, "obj-" + san)
            os.makedirs(sdir, exist_ok=True)
            for s in repo_sources():
                o = os.path.join(sdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append(self.pool.submit(comp, s, o, src_flags(s)))
            for s, o, f in [(os.path.join(VERIF, "engine", "rt.c"), os.path.join(sdir, "rt.o"), ["-std=gnu99", "-w"]),
                            (os.path.join(VERIF, "harness", u["src"]), os.path.join(d, "h.o"), CFLAGS + defs + ["-I" + self.work])]:
                objs.append(o)
                if o.endswith("h.o") or not os.path.exists(o):
                    jobs.append(self.pool.submit(comp, s, o, f))
            for j in jobs:
                j.result()
            exe = os.path.join(d, "replay")
            sh(cc + ["-g", "-o", exe] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS if not (san == "msan" and w == "atexit")), "-lm"])
            self.native[key] = exe
            return exe

    def run_native(self, u, inputs, san, timeout=20):
        exe = self.native_build(u, san)
        with self.native_lock:
            self.replays += 1
            n = self.replays
        base = os.path.join(self.work, "replay%d" % n)
        with open(base + ".in", "w") as f:
            for name, kind, val in inputs:
                f.write("%s %s %s\n" % (re.sub(r"\s", "_", name), kind, val))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=75:allocator_may_return_null=0:redzone=2048:max_redzone=2048:detect_stack_use_after_return=1:halt_on_error=1", MSAN_OPTIONS="exitcode=74:halt_on_error=1")
        try:
            r = subprocess.run([exe, base + ".in", base + ".trace"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=env, cwd=self.work)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        tr = open(base + ".trace", errors="replace").read().splitlines() if os.path.exists(base + ".trace") else []
        return rc, err, tr

    def confirm(self, u, f):
        """does the finding show on the real code?  -> (confirmed, text)"""
        kind = f["kind"]
        if kind == "uninit":
            rc, err, tr = self.run_native(u, f["inputs"], "msan")
            if rc == 74 and "use-of-uninitialized-value" in err:
                return True, "MemorySanitizer: use of uninitialised value"
            rc, err, tr = self.run_native(u, f["inputs"], "asan")
            if rc not in (0, 78, 79):
                return True, self.describe(rc, err, tr)
            return False, "native run: rc=%s" % rc
        rc, err, tr = self.run_native(u, f["inputs"], "asan")
        if rc in (0, 78, 79):
            return False, "native run ended normally (rc=%s %s)" % (rc, tr[-1:] if tr else "")
        return True, self.describe(rc, err, tr)

    @staticmethod
    def describe(rc, err, tr):
        if rc == 77:
            return "property violated: " + (tr[-1] if tr else "")
        if rc == 76:
            return "the program ended itself"
        if rc == 75:
            m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
            return "AddressSanitizer: " + (m.group(1)[:160] if m else "")
        if rc == "timeout":
            return "does not terminate"
        return "native run ended with %s %s" % (rc, err.strip().splitlines()[-1:] if err.strip() else "")

    def run_unit(self, u):
        t0 = time.time()
        bc = self.compile_unit(u)
        outd = os.path.join(self.work, u["name"], "out")
        os.makedirs(outd)
        cmd = [SYMX, bc, "--entry", "symx_main", "--out", outd, "-j", str(u.get("j", NCPU)), "--max-time", str(u.get("max_time", 700)),
               "--max-inst", str(u.get("max_inst", 60000000)), "--seed", os.environ.get("VERIF_SEED", "1"),
               "--max-findings", str(u.get("max_findings", 6)), "--samples", str(u.get("samples", 2)), "--rlimit", str(u.get("rlimit", 40000000))]
        if self.args.profile:
            cmd.append("--profile")
        if self.args.v:
            cmd.append("-v")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if self.args.v or self.args.profile:
            sys.stderr.write(r.stderr)
        if r.returncode != 0:
            raise CheckError("executor failed on unit %s (rc %s): %s" % (u["name"], r.returncode, r.stderr[-2000:]))
        st = {"reached": {}, "funcs": {}, "why": [], "assertsBy": {}}
        findings, samples = [], []
        for p in sorted(glob.glob(outd + "/res.*.jsonl")):
            for line in open(p):
                o = json.loads(line)
                if o["t"] == "finding":
                    findings.append(o)
                elif o["t"] == "sample":
                    samples.append(o)
                else:
                    for k, v in o.items():
                        if k in ("reached", "funcs", "assertsBy"):
                            for a, b in v.items():
                                st[k][a] = st[k].get(a, 0) + b
                        elif k == "why":
                            st[k] += [w for w in v if w not in st[k]]
                        elif k == "maxSecs":
                            st[k] = max(st.get(k, 0), v)
                        elif k != "t":
                            st[k] = st.get(k, 0) + v
        st["wall"] = time.time() - t0
        res = {"unit": u, "stats": st, "violations": [], "spurious": [], "problems": [], "samples": []}
        # findings: replay on the real code, at most 3 of each message
        seen = {}
        todo = []
        for f in findings:
            k = (f["kind"], f["msg"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3:
                todo.append(f)
        for f in todo:
            ok, text = self.confirm(u, f)
            (res["violations"] if ok else res["spurious"]).append(dict(f, native=text, unit=u["name"]))
        # translator validation: sampled paths must behave identically natively
        step = max(1, len(samples) // u.get("validate", 10))
        for s in samples[::step][:u.get("validate", 10)]:
            if s["how"] not in ("return", "exit"):
                continue
            rc, err, tr = self.run_native(u, s["inputs"], "asan")
            obs = [l.split()[1] for l in tr if l.startswith("OBS")]
            if rc == 79 and any("ASSUME real" in l or "reference value undefined" in l for l in tr):
                continue        # the model need not satisfy assumptions about reals, which only the solver considers
            if rc != 0 or obs != s["obs"]:
                if any(v for v in res["violations"]):
                    continue
                res["problems"].append("sampled path differs natively: rc=%s trace=%s inputs=%s obs=%s err=%s" % (rc, tr[-3:], s["inputs"], s["obs"][:50], err[-1500:]))
            else:
                res["samples"].append(s)
        for w in u.get("reach", []):
            if not st["reached"].get(w) and not findings:
                res["problems"].append("vacuous: '%s' was never reached" % w)
        if st.get("incomplete") and not res["violations"]:
            res["problems"].append("exploration incomplete: %s (%d paths left)" % ("; ".join(st["why"]), st["incomplete"]))
        if res["spurious"] and not res["violations"]:
            for f in res["spurious"][:3]:
                res["problems"].append("finding does not reproduce natively: %s / %s / %s / %s" % (f["kind"], f["msg"], f["stack"], f["native"]))
        return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    from checks import CHECKS
    c = CHECKS[args.prop]
    ensure_engine()
    run = Run(args.prop, args.tier, args)
    rc = 2
    try:
        units = []
        for u in c["units"]:
            if args.unit and not re.search(args.unit, u["name"]):
                continue
            if args.tier == "quick" and u.get("thorough_only"):
                continue
            u = dict(u)
            u["defs"] = dict(u.get("defs", {}))
            if args.tier == "thorough":
                u["defs"].update(u.get("deep", {}))
                u.update(u.get("deep_opts", {}))
            units.append(u)
        run.compile_common()
        results = []
        small = [u for u in units if u.get("j", NCPU) == 1]
        big = [u for u in units if u.get("j", NCPU) != 1]
        with ThreadPoolExecutor(NCPU) as ex:
            results += list(ex.map(run.run_unit, small))
        for u in big:
            results.append(run.run_unit(u))
            if results[-1]["violations"] and args.tier == "quick":
                break
        rc = finish(args, c, run, results, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (args.prop, e))
        rc = 2
    finally:
        if args.keep:
            print("kept", run.work)
        else:
            shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)


def finish(args, c, run, results, t0):
    prop = args.prop
    viol = [v for r in results for v in r["violations"]]
    problems = [p for r in results for p in r["problems"]]
    tot = lambda k: int(sum(r["stats"].get(k, 0) for r in results))
    funcs = {}
    for r in results:
        for k, v in r["stats"]["funcs"].items():
            funcs[k] = funcs.get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"unit": r["unit"]["name"], "ended": s["how"], "inputs": {("%s#%d" % (n, i)): v for i, (n, k, v) in enumerate(s["inputs"])}, "observed": s["obs"][:20]})
    ev = {
        "property": prop, "tier": args.tier if args.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("killed"), "transitions": tot("branches"), "traces_validated_against_impl": sum(len(r["samples"]) for r in results),
            "samples": samples[:12],
            "paths_completed": tot("paths"), "paths_ended_by_assumption_or_finding": tot("killed"),
            "instructions_executed": tot("insts"), "symbolic_branches": tot("symBranches"),
            "assertions_checked": tot("asserts"), "assertions_decided_by_solver": tot("assertsSolver"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"), "solver_cache_hits": tot("cacheHits"),
            "byte_domain_decisions": tot("domHits"), "solver_seconds": round(sum(r["stats"].get("solverSecs", 0) for r in results), 2),
            "functions_encoded": sorted(k for k in funcs if not k.startswith("symx_"))[:400],
            "units": [{"name": r["unit"]["name"], "bounds": r["unit"].get("bounds", ""), "defs": r["unit"]["defs"], "paths": int(r["stats"].get("paths", 0)), "asserts": int(r["stats"].get("asserts", 0)),
                       "queries": int(r["stats"].get("queries", 0)), "solver_s": round(r["stats"].get("solverSecs", 0), 2), "wall_s": round(r["stats"]["wall"], 1), "reached": r["stats"]["reached"],
                       "undecided_real_queries": int(r["stats"].get("realUnknown", 0))} for r in results],
            "exhaustive": False,
        },
        "assumptions": c.get("assumptions", []) + ["LLVM front end and passes, the executor, its C library model and z3 are trusted; sampled paths are re-run natively and must agree"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for r in results:
        s = r["stats"]
        print("unit %-28s %6d paths %7d asserts %6d queries %6.1fs solver %6.1fs wall%s" % (r["unit"]["name"], s.get("paths", 0), s.get("asserts", 0), s.get("queries", 0), s.get("solverSecs", 0), s["wall"],
              (" undecided=%d" % s["realUnknown"]) if s.get("realUnknown") else ""))
    rc = 0
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay-" + prop)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
        for i, v in enumerate(viol):
            k = next((k for k in known if k["property"] == prop and k.get("status") == "known" and re.search(k["match"], "%s|%s|%s|%s" % (v["unit"], v["kind"], v["msg"], v["stack"]))), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            p = os.path.join(rdir, "%d.json" % i)
            json.dump(v, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  unit=%s %s: %s" % (v["unit"], v["kind"], v["msg"]))
            print("  at %s" % v["stack"])
            print("  on the real code: %s" % v["native"])
            print("  inputs: %s" % " ".join("%s=%s" % (n, val) for n, k2, val in v["inputs"])[:600])
            rc = 1
    if rc == 0 and problems:
        for p in problems[:8]:
            print("CHECK-ERROR property=%s %s" % (prop, p))
        rc = 2
    ev["coverage"]["problems"] = problems[:8]
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s property=%s tier=%s paths=%d asserts=%d queries=%d wall=%.1fs" % ({0: "HOLDS", 1: "BROKEN", 2: "NO-ANSWER"}[rc], prop, args.tier, tot("paths"), tot("asserts"), tot("queries"), time.time() - t0))
    return rc


if __name__ == "__main__":
    main()
