#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.

1. /repo's sources are compiled to LLVM IR; the verification conditions of every function under a contract tagged
   with the property are generated from it and discharged (engine/, specs/).
2. The bounded harness (harness/) is built from the same sources and searched: it is the stand-in for functions
   without a contract, and it looks for a concrete failing input when an obligation fails.
Exit 0 / exit 1 with a VIOLATION line; anything undecided is reported as UNDECIDED and never as a violation."""
import os, sys, time, json, subprocess, tempfile, shutil, glob, threading, atexit, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
import plan

REPO = os.environ.get("VERIF_REPO", "/repo")
HFLAGS = ["-g", "-O1", "-std=c++17", "-D__LOCK_FREE__", "-DMB_ENABLE_TRAVERSAL_LIMIT", "-I" + REPO + "/src",
          "-I" + REPO + "/src/util", "-I" + REPO + "/src/detail", "-I" + REPO + "/binaries", "-I" + HERE + "/harness", "-w"]


def scratchdir():
    d = tempfile.mkdtemp(prefix="mbcheck.")
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


class BuildFailed(Exception):
    pass


TRACED = {"crash", "lockfree", "lockfree2"}      # modes that need the instrumented library
TFLAGS = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]
TLINK = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pwrite,--wrap=pread,--wrap=mmap"]


def build_harness(d, traced=False):
    srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/util/*.cpp") + glob.glob(REPO + "/src/detail/*.cpp"))
    hs = sorted(glob.glob(HERE + "/harness/*.cpp")) + glob.glob(REPO + "/binaries/hexbin.cpp")
    jobs = []
    o = os.path.join(d, "o")
    os.makedirs(o)
    objs = []
    for i, s in enumerate(hs + srcs):
        f = os.path.join(o, "%d_%s.o" % (i, os.path.basename(s)[:-4]))
        objs.append(f)
        jobs.append(["g++"] + HFLAGS + (["-DTRACED"] if traced else []) + (TFLAGS if traced and s in srcs else []) + ["-c", s, "-o", f])
    run = []
    out = []
    err = []

    def reap(block_below):
        while len(run) > block_below:
            for p in list(run):
                if p.poll() is not None:
                    run.remove(p)
                    if p.returncode:
                        err.append(p.stdout.read()[-2000:])
            time.sleep(0.01)
    for j in jobs:
        reap(7)
        run.append(subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    reap(0)
    if err:
        raise BuildFailed(err[0])
    exe = os.path.join(d, "mbh")
    r = subprocess.run(["g++"] + objs + ["-o", exe, "-ljemalloc", "-lpthread"] + (TLINK if traced else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildFailed(r.stdout[-2000:])
    return exe


def run_mode(exe, d, mode, seed, first, count, jobs, secs, thorough):
    sc = os.path.join(d, "s_" + mode)
    os.makedirs(sc, exist_ok=True)
    ff = os.path.join(d, "fail_" + mode)
    if os.path.exists(ff):
        os.unlink(ff)
    env = dict(os.environ)
    if thorough:
        env["MBH_THOROUGH"] = "1"
    try:
        r = subprocess.run([exe, mode, str(seed), str(first), str(count), str(jobs), sc, ff, str(secs)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, env=env, timeout=secs + 240, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 4, ""
    shutil.rmtree(sc, ignore_errors=True)
    st = {}
    samples = []
    for l in out.split("\n"):
        if l.startswith("STATS"):
            st = dict(x.split("=") for x in l.split()[1:])
        elif l.startswith("SAMPLE "):
            samples.append(l[7:900])
    fail = None
    if rc == 1 and os.path.exists(ff):
        fail = open(ff, errors="replace").read()
    return dict(mode=mode, rc=rc, stats=st, samples=samples, fail=fail)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    P = plan.PLAN[pid]
    d = scratchdir()
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    for f in glob.glob(HERE + "/evidence/replay/" + pid + "-*"):
        os.unlink(f)
    violations, undecided, notes = [], [], []

    # ---- harness build runs beside IR extraction
    hb = {}

    def hbuild():
        try:
            hb["exe"] = build_harness(d, any(m in TRACED for m in P["modes"]))
        except Exception as e:
            hb["err"] = str(e)
    th = None
    if P["modes"]:
        th = threading.Thread(target=hbuild)
        th.start()

    # ---- proofs
    import driver, contract
    prs = [p for p in driver.load_specs() if pid in p.props]
    presults = []
    if th:
        th.join()
    if prs:
        try:
            m, L = driver.load_module()
        except Exception as e:
            m = None
            undecided.append("extraction failed: %s" % str(e)[:1500])
        if m is not None:
            presults = contract.run_proofs(m, L, prs, 8, 60000 if thorough else 10000)
    nob = sum(r["obligations"] for r in presults)
    ndis = sum(r["discharged"] for r in presults)
    for r in presults:
        if r["status"] != "ok":
            undecided.append("%s (%s): %s" % (r["proof"], r["target"], (r["error"] or r["status"])[:400]))
        for u in r["unknown"]:
            undecided.append("%s: obligation not decided: %s" % (r["proof"], u["obligation"]))
    refuted = [(r, f) for r in presults for f in r["failed"]]

    # ---- bounded harness
    runs = []
    if th:
        if "exe" not in hb:
            undecided.append("harness did not build: %s" % hb.get("err", "")[:1500])
        else:
            for mode, (q, t, cap) in P["modes"].items():
                secs = t if thorough else q
                if refuted:
                    secs *= 2          # search harder for a concrete input
                r = run_mode(hb["exe"], d, mode, seed, 0, 10 ** 9 if thorough else cap, 8, secs, thorough)
                runs.append(r)
                if r["rc"] == 1 and r["fail"]:
                    head = r["fail"].split("\n")[0].split()
                    case = int(head[5])
                    ok = False
                    for _ in range(3):     # a failure counts when it fails again
                        r2 = run_mode(hb["exe"], d, mode, seed, case, 1, 1, 200, thorough)
                        if r2["rc"] == 1 and r2["fail"]:
                            ok = True
                            break
                    if not ok:
                        notes.append("mode %s case %d failed once and not again: no verdict from it: %s" % (mode, case, r["fail"][:300]))
                        continue
                    path = HERE + "/evidence/replay/%s-%s" % (pid, mode)
                    with open(path, "w") as f:
                        f.write("property %s: a concrete failing run of the code in %s\n" % (pid, REPO))
                        f.write("replay: build harness/ with the library (check.py build_harness), then: mbh %s %d %d 1 1 SCRATCH FAILFILE\n" % (mode, seed, case))
                        f.write(r2["fail"])
                        for rr, fo in refuted:
                            f.write("\nrefuted obligation: %s in %s: %s\n" % (rr["proof"], fo["function"], fo["obligation"]))
                    violations.append((path, ""))
                elif r["rc"] != 0:
                    undecided.append("harness mode %s gave no verdict (rc %d)" % (mode, r["rc"]))
    if refuted and not violations:
        path = HERE + "/evidence/replay/%s-obligations" % pid
        with open(path, "w") as f:
            f.write("property %s: obligations refuted by the solver on the code in %s (no failing input found by the bounded search)\n" % (pid, REPO))
            for r, fo in refuted:
                f.write("\nproof %s (%s)\n obligation: %s\n in function: %s\n goal: %s\n path: %s\n counterexample: %s\n" % (
                    r["proof"], r["title"], fo["obligation"], fo["function"], fo["goal"], " & ".join(fo["path"]), fo["model"]))
        violations.append((path, " no-failing-input-found"))

    # ---- report
    for r in presults:
        print("PROOF %-34s %-9s %d/%d obligations  %s  %.1fs" % (r["proof"], r["status"], r["discharged"], r["obligations"], r["target"], r["wall"]))
    for r in runs:
        print("BOUNDED %-10s rc=%d %s" % (r["mode"], r["rc"], r["stats"]))
    for u in undecided:
        print("UNDECIDED " + u.replace("\n", " ")[:1000])
    for n in notes:
        print("NOTE " + n.replace("\n", " "))
    kf = HERE + "/known-findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("finding: property=" + pid + " "):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    ev_total = sum(int(r["stats"].get("done", 0)) for r in runs)
    ev_ops = sum(int(r["stats"].get("ops", 0)) for r in runs)
    ev_dis = sum(int(r["stats"].get("distinct", 0)) for r in runs)
    trusted = sorted({"assumed model of " + t for r in presults for t in r["trusted"]})
    level = P.get("level") or ("proof" if prs else "exploration")
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt check.py %s %s (z3 %s through its API; cvc5 and z3-new for queries it leaves open)" % (pid, tier, z3v()),
        "trusted_base": trusted + TRUST,
        "functions_under_contract": sorted({f for r in presults for f in r["functions"]}),
        "functions_inlined": sorted({f for r in presults for f in r["inlined"]}),
        "callee_contracts_used": sorted({f for r in presults for f in r["contracts_used"]}),
        "proofs": [{k: r[k] for k in ("proof", "target", "title", "status", "obligations", "discharged", "wall", "solver_s", "queries",
                                      "paths", "loops_summarised", "backends", "bounded")} for r in presults],
        "bounded_proofs": [r["proof"] + ": " + r["bounded"] for r in presults if r["bounded"]],
        "solver_s": round(sum(r["solver_s"] for r in presults), 2),
        "undecided": undecided,
        "evaluations": ev_total, "operations_compared": ev_ops, "distinct_nontrivial": min(ev_dis, ev_total),
        "rule": "bounded stand-in, never counted as proved: each case is a random configuration and operation history derived from (mode, seed, case number), compared with a reference model after every operation; distinct cases are counted by a hash of the whole history",
        "samples": [s for r in runs for s in r["samples"]][:4] or [r["proof"] for r in presults[:3]],
        "bounded_modes": [{"mode": r["mode"], "rc": r["rc"], **r["stats"]} for r in runs],
        "notes": notes,
    }
    if level == "other":
        cov["explanation"] = P.get("explanation", "")
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUME + P.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged, %d bounded cases, %d undecided, %d violations, %.0f s" % (
        pid, tier, ndis, nob, ev_total, len(undecided), len(violations), time.time() - t0))
    for path, suffix in violations:
        print("VIOLATION property=%s replay=%s%s" % (pid, path, suffix))
    sys.stdout.flush()
    return 1 if violations else 0


def z3v():
    import z3
    return z3.get_version_string()


TRUST = ["clang-18/opt-18 translation of the C++ sources to LLVM IR (the text verified is the IR compiled from /repo on this run; g++ builds the shipped binary)",
         "the verification-condition generator in /verif/engine", "z3 / cvc5",
         "models of libc, libstdc++ and operator new/delete calls in engine/builtins_.py"]
ASSUME = ["single-threaded execution inside each verified function; std::atomic accesses are sequential",
          "pointers handed to a verified function refer to separate objects unless its contract says otherwise",
          "memory allocation succeeds; logging has no effect on the database",
          "functions neither under contract nor inlined are listed as trusted models"]

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    sys.exit(main())
