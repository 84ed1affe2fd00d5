#!/usr/bin/env python3
"""Driver: compile /repo's current sources with a harness to LLVM IR, execute the
module symbolically (klsym + Z3), replay every counterexample natively, write
the evidence file, and decide the exit status.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [-v]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KLS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

CLANG = "clang++-18"
IRFLAGS = ["-std=c++17", "-O1", "-g", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DRAPIDJSON_HAS_STDSTRING=1",
           "-DKLSYM=1", "-w", "-emit-llvm"]
UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero,return,float-cast-overflow,bounds"
NATFLAGS = ["-std=c++17", "-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-DRAPIDJSON_HAS_STDSTRING=1", "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def engine():
    """Build klsym when its binary is missing or older than its sources."""
    r = sh(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine"), "OUT=" + BUILD])
    if r.returncode:
        print(r.stdout)
        print("ERROR: cannot build the symbolic executor")
        sys.exit(2)
    return os.path.join(BUILD, "klsym")


def incs():
    return ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "include"), "-I" + REPO]


class BuildError(Exception):
    pass


def run_or_die(cmd):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def compile_ir(h, defs, work, pool):
    tag = h["name"]
    san = [] if h.get("no_ubsan") else ["-fsanitize=" + UBSAN, "-fsanitize-trap=" + UBSAN]
    jobs, outs = [], []
    d = ["-D%s=%s" % kv for kv in defs.items()]
    src = os.path.join(VERIF, "harness", h["src"])
    o = os.path.join(work, tag + ".h.bc")
    jobs.append([CLANG] + IRFLAGS + san + incs() + d + ["-c", src, "-o", o])
    outs.append(o)
    for s in h.get("repo", []):
        o = os.path.join(work, tag + "." + s.replace("/", "_") + ".bc")
        jobs.append([CLANG] + IRFLAGS + san + incs() + ["-c", os.path.join(REPO, "src", s + ".cpp"), "-o", o])
        outs.append(o)
    for s in h.get("rt", []) + ["rt.cpp"]:
        o = os.path.join(work, tag + ".rt_" + s + ".bc")
        jobs.append([CLANG] + IRFLAGS + incs() + ["-fno-builtin", "-c", os.path.join(VERIF, "rt", s), "-o", o])
        outs.append(o)
    fs = [pool.submit(run_or_die, j) for j in jobs]
    for f in fs:
        f.result()
    m = os.path.join(work, tag + ".bc")
    run_or_die(["llvm-link-18", "-o", m] + outs)
    return m


def compile_native(h, defs, work, threads=False):
    d = ["-D%s=%s" % kv for kv in defs.items()]
    exe = os.path.join(work, h["name"] + ".native")
    srcs = [os.path.join(VERIF, "harness", h["src"])]
    srcs += [os.path.join(REPO, "src", s + ".cpp") for s in h.get("repo", [])]
    if h.get("threads"):
        # our own scheduler runtime sits behind the compiler's -fsanitize=thread instrumentation
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(work, "%s.nat%d.o" % (h["name"], i))
            run_or_die([CLANG, "-std=c++17", "-O1", "-g", "-w", "-D_GLIBCXX_ASSERTIONS", "-DRAPIDJSON_HAS_STDSTRING=1",
                        "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + incs() + d + ["-c", s, "-o", o])
            objs.append(o)
        run_or_die([CLANG, "-std=c++17", "-O1", "-g", "-w"] + incs() + objs + [os.path.join(VERIF, "rt", "replay_threads.cpp"), "-o", exe, "-lpthread"])
        return exe
    cmd = ["g++"] + NATFLAGS + ["-fsanitize=address," + UBSAN, "-fno-sanitize-recover=" + UBSAN]
    if h.get("no_ubsan"):
        cmd = ["g++"] + NATFLAGS + ["-fsanitize=address"]
    run_or_die(cmd + incs() + d + srcs + [os.path.join(VERIF, "rt", "replay.cpp"), "-o", exe])
    return exe


def write_inputs(js, path):
    with open(path, "w") as f:
        for i in js["inputs"]:
            f.write("%s %d %d\n" % (i["name"], i["bits"], i["value"]))


def native_run(exe, inp, timeout=90):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=98:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:print_stacktrace=1"
    try:
        r = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=timeout, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -99, "", "timeout"


def reproduced(rc, kind):
    """Does the native outcome confirm a violation?"""
    if rc in (97, 98):
        return True
    if rc in (0, 77, 78):
        return False
    if rc == -99 or rc == -14:   # hang / alarm
        return kind in ("deadlock", "infinite")
    return True  # abort, SIGSEGV, terminate


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    cfg = PROPS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    klsym = engine()
    work = tempfile.mkdtemp(prefix="kls_" + prop + "_")
    rdir = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    try:
        rc = run(cfg, prop, tier, seed, klsym, work, rdir, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    sys.exit(rc)


def run(cfg, prop, tier, seed, klsym, work, rdir, a, t0):
    hs = [h for h in cfg["harnesses"] if (tier in h.get("tiers", ["quick", "thorough"])) and (not a.only or a.only == h["name"])]
    pool = cf.ThreadPoolExecutor(8)
    npool = cf.ThreadPoolExecutor(4)
    res, viols, knowns, notes = [], [], [], []
    kf = known(prop)
    validated = 0
    budget = cfg.get("budget", {}).get(tier, 480 if tier == "quick" else 3000)
    try:
        mods = {}
        nat = {}
        with cf.ThreadPoolExecutor(8) as outer:
            futs = {h["name"]: outer.submit(compile_ir, h, h.get(tier, h.get("quick", {})), work, pool) for h in hs}
            for n, f in futs.items():
                mods[n] = f.result()
    except BuildError as e:
        print("ERROR: cannot compile the harness against /repo")
        print(e)
        return 2
    if not os.environ.get("KLS_NO_NATIVE"):
        for h in hs:
            nat[h["name"]] = npool.submit(compile_native, h, h.get(tier, h.get("quick", {})), work)
    for h in hs:
        if os.environ.get("KLS_FAST") and any(x[1]["confirmed_natively"] for x in viols):
            break  # campaigns only need to know whether there is a violation
        defs = h.get(tier, h.get("quick", {}))
        out = os.path.join(work, h["name"] + ".out")
        os.makedirs(out)
        left = max(20, budget - (time.time() - t0))
        tl = min(h.get("time", {}).get(tier, 10 ** 6), left)
        cmd = [klsym, mods[h["name"]], "--out", out, "--time", str(int(tl)), "--jobs", str(a.jobs), "--query-ms", "30000" if tier == "thorough" else "10000",
               "--max-viol", "1" if os.environ.get("KLS_FAST") else "6"]
        if a.v:
            cmd.append("-v")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.STDOUT, text=True)
        sp = os.path.join(out, "stats.json")
        if not os.path.exists(sp):
            notes.append("%s: engine failed: %s" % (h["name"], (r.stdout or "")[-500:]))
            res.append((h, None))
            continue
        st = json.load(open(sp))
        inc = []
        ip = os.path.join(out, "incomplete.txt")
        if os.path.exists(ip):
            inc = sorted(set(l.strip() for l in open(ip)))[:8]
        st["incomplete_reasons"] = inc
        # native binary of the same harness
        try:
            exe = nat[h["name"]].result() if h["name"] in nat else None
        except BuildError as e:
            exe = None
            notes.append("%s: native replay build failed: %s" % (h["name"], str(e)[-400:]))
        vfiles = sorted(f for f in os.listdir(out) if f.startswith("viol_"))
        for vf in vfiles:
            v = json.load(open(os.path.join(out, vf)))
            inp = os.path.join(work, vf + ".in")
            write_inputs(v, inp)
            k = next((k for k in kf if k.get("harness") == h["name"] and k["match"] in v["kind"] + ": " + v["msg"]), None)
            ok, log = False, "no native build"
            if exe:
                rc, so, se = native_run(exe, inp, 20 if v["kind"] == "infinite" else 90)
                ok = reproduced(rc, v["kind"])
                log = "exit %d\n%s%s" % (rc, so[-2000:], se[-4000:])
            v["confirmed_natively"] = ok
            v["native_log"] = log
            v["harness"] = h["name"]
            v["replay"] = "g++ -fsanitize=address,undefined harness/%s + /repo sources with %s; run on the recorded inputs" % (h["src"], defs)
            if ok and k:
                knowns.append((k, v))
            else:
                viols.append((h, v, inp))
        # translation validation: completed symbolic paths replayed natively
        wok, wbad = 0, []
        if exe:
            wits = sorted(f for f in os.listdir(out) if f.startswith("wit_"))
            def one(wf):
                w = json.load(open(os.path.join(out, wf)))
                inp = os.path.join(work, h["name"] + wf + ".in")
                write_inputs(w, inp)
                rc, so, se = native_run(exe, inp)
                cov = [l[6:] for l in so.splitlines() if l.startswith("COVER ")]
                return w, inp, rc, so, se, cov
            for w, inp, rc, so, se, cov in pool.map(one, wits):
                if rc == 0 and cov == w["covers"]:
                    wok += 1
                elif rc in (97, 98):
                    v = {"kind": "native", "msg": "native execution of a symbolically completed path fails", "loc": "", "backtrace": "", "inputs": w["inputs"],
                         "confirmed_natively": True, "native_log": "exit %d\n%s%s" % (rc, so[-2000:], se[-4000:]), "harness": h["name"]}
                    k = next((k for k in kf if k.get("harness") == h["name"] and k["match"] in se), None)
                    if k:
                        knowns.append((k, v))
                    else:
                        viols.append((h, v, inp))
                else:
                    wbad.append("rc=%d symbolic covers %s, native %s %s" % (rc, w["covers"], cov, se[-200:]))
        st["witnesses_replayed_natively"] = wok
        st["witness_mismatches"] = wbad[:5]
        validated += wok
        missing = [c for c in h.get("covers", ["end"]) if not st["covers"].get(c)]
        st["missing_covers"] = missing
        res.append((h, st))
        if a.v or os.environ.get("KLS_STATS"):
            print(h["name"], {k: st[k] for k in ("paths", "queries", "unsat", "sat", "unknown", "incomplete", "wall_s", "solver_s", "witnesses_replayed_natively", "witness_mismatches", "missing_covers", "incomplete_reasons", "violations", "covers")})
    npool.shutdown()
    confirmed = [x for x in viols if x[1]["confirmed_natively"]]
    unconfirmed = [x for x in viols if not x[1]["confirmed_natively"]]
    # ---------------------------------------------------------------- evidence
    tot = lambda k: sum(s[k] for _, s in res if s)
    fns = sorted(set(f for _, s in res if s for f in s["repo_functions"]))
    exhaustive = bool(res) and all(s and not s["incomplete"] and not s["missing_covers"] for _, s in res)
    samples = []
    for h, s in res:
        if not s:
            continue
        out = os.path.join(work, h["name"] + ".out")
        for wf in sorted(f for f in os.listdir(out) if f.startswith("wit_"))[-2:]:
            w = json.load(open(os.path.join(out, wf)))
            samples.append({"harness": h["name"], "path_inputs": ["%s=%d" % (i["name"], i["value"]) for i in w["inputs"]][:40], "covers": w["covers"][:10]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": tot("paths") + tot("assumed_away"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
            "samples": samples or ["none"],
            "explanation": "bounded symbolic execution of clang's LLVM IR for /repo's current sources; every branch, pointer, allocation size and assertion over symbolic inputs is decided by Z3 (QF_BV / QF_BVFP); states = completed symbolic paths, transitions = IR instructions executed",
            "exhaustive_within_bounds": exhaustive,
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
            "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 2),
            "assertions_discharged_by_solver": tot("asserts_symbolic"), "assertions_concrete_on_path": tot("asserts_concrete"),
            "functions_encoded": fns, "ir_functions_executed": tot("functions"),
            "harnesses": [{"name": h["name"], "bounds": h.get("bounds", ""), "defines": h.get(tier, h.get("quick", {})),
                           **({k: s[k] for k in ("paths", "queries", "unsat", "sat", "unknown", "solver_s", "wall_s", "forks", "instructions", "covers", "missing_covers", "incomplete", "incomplete_reasons", "witnesses_replayed_natively", "witness_mismatches", "sched_points")} if s else {"failed": True})} for h, s in res],
        },
        "assumptions": cfg.get("assumptions", []),
        "violations": len(confirmed),
        "violation_details": [{"harness": v["harness"], "kind": v["kind"], "msg": v["msg"], "loc": v["loc"]} for _, v, _ in confirmed],
    }
    if unconfirmed:
        ev["unconfirmed_counterexamples"] = [{"harness": v["harness"], "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "native_log": v["native_log"][-600:]} for _, v, _ in unconfirmed]
    if knowns:
        ev["known_findings"] = [k["what"] for k, _ in knowns]
    if notes:
        ev["notes"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    # ---------------------------------------------------------------- verdict
    for h, s in res:
        if s is None:
            print("NOTE %s: engine failed" % h["name"])
        elif s["incomplete"] or s["missing_covers"] or s["witness_mismatches"]:
            print("NOTE %s: INCOMPLETE: %s missing covers %s witness mismatches %s" % (h["name"], "; ".join(s["incomplete_reasons"]), s["missing_covers"], s["witness_mismatches"]))
    for n in notes:
        print("NOTE", n)
    for k in {k["what"] for k, _ in knowns}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if confirmed:
        os.makedirs(rdir, exist_ok=True)
        for i, (h, v, inp) in enumerate(confirmed):
            p = os.path.join(rdir, "%s_%d.json" % (h["name"], i))
            json.dump(v, open(p, "w"), indent=1)
            shutil.copy(inp, p[:-5] + ".in")
            print("%s: %s: %s at %s\n%s" % (h["name"], v["kind"], v["msg"], v["loc"], v["backtrace"]))
            print("native replay: " + v["native_log"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for h, v, _ in unconfirmed:
        print("UNCONFIRMED %s: %s: %s at %s\n%s\n%s" % (h["name"], v["kind"], v["msg"], v["loc"], v["backtrace"], v["native_log"][:800]))
    if not any(s for _, s in res):
        print("ERROR: nothing was explored")
        return 2
    print("%s property=%s paths=%d queries=%d (unsat %d, sat %d, unknown %d) solver %.1fs validated %d wall %.1fs" % (
        "HOLDS within bounds" if exhaustive and not unconfirmed else "HELD on everything explored (NOT exhaustive)", prop, tot("paths"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), tot("solver_s"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
