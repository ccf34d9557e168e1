#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py PROPERTY [--tier quick|thorough] [--secs N] [--workers N]
  check.py --setup                      build only
  check.py --replay FILE                re-run one replay file
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Anything else: error of the check.
"""
import sys, os, json, subprocess, hashlib, fcntl, shutil, tempfile, time, argparse, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
RULES = json.load(open(os.path.join(VERIF, "rules.json")))


def sources():
    out = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".hh")) or f == "Makefile":
                    out.append(os.path.join(d, f))
    return out


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "sources.json")
        new = {f: hashlib.sha256(open(f, "rb").read()).hexdigest() for f in sources()}
        old = {}
        try:
            old = json.load(open(stamp))
        except Exception:
            pass
        exe = os.path.join(BUILD, "simrun")
        if old == new and os.path.exists(exe):
            return exe
        # a file whose content changed but whose time stamp make would not notice: rebuild everything
        t = os.path.getmtime(stamp) if os.path.exists(stamp) else None
        force = t is None or set(old) != set(new) or any(
            old.get(f) != h and os.path.getmtime(f) <= t for f, h in new.items())
        if os.path.exists(stamp):
            os.unlink(stamp)
        cmd = ["make", "-s", "-C", os.path.join(VERIF, "sim"), "-j%d" % max(2, os.cpu_count() or 2),
               "REPO=" + REPO, "OUT=" + BUILD] + (["-B"] if force else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            print("ERROR: the simulator does not build against /repo")
            sys.exit(2)
        json.dump(new, open(stamp, "w"))
        return exe


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            return tempfile.mkdtemp(prefix="oxsxsim.", dir=d)
        except OSError:
            continue
    raise SystemExit(2)


def known_for(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                cls, desc = rest.split(" ", 1)
                out.append((cls.replace("class=", "", 1), desc))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--workload", default="")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    exe = build()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
               "max_allocation_size_mb=3000:handle_segv=1:detect_odr_violation=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:malloc_context_size=6",
               HDF5_USE_FILE_LOCKING="TRUE", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C", TZ="UTC")
    if a.setup:
        print("built", exe)
        return 0
    if a.replay:
        base = scratch_base()
        r = subprocess.run([exe, "replay", "--file", os.path.abspath(a.replay), "--scratch", os.path.join(base, "r")], env=env)
        shutil.rmtree(base, ignore_errors=True)
        return r.returncode
    prop, tier = a.prop, a.tier
    rule = RULES[prop]
    secs = a.secs or (rule.get("quick_secs", 22) if tier == "quick" else rule.get("thorough_secs", 600))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = known_for(prop)
    base = scratch_base()
    t0 = time.time()
    try:
        kf = os.path.join(base, "known.txt")
        open(kf, "w").write("\n".join(c for c, _ in known) + "\n")
        procs = []
        for w in range(a.workers):
            cmd = [exe, "search", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--workers", str(a.workers),
                   "--secs", str(secs), "--runs", str(a.runs), "--tier", tier, "--known", kf,
                   "--minsecs", "20" if tier == "quick" else "120", "--out", base, "--scratch", os.path.join(base, "w%d" % w)]
            if a.workload:
                cmd += ["--workload", a.workload]
            procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        errs = []
        for p in procs:
            _, e = p.communicate()
            if p.returncode not in (0, 1):
                errs.append("worker exit %s %s" % (p.returncode, (e or "")[-500:]))
        stats = []
        for w in range(a.workers):
            f = os.path.join(base, "worker_%d.json" % w)
            if os.path.exists(f):
                stats.append(json.load(open(f)))
            else:
                errs.append("worker %d left no statistics" % w)
        errs += [s["error"] for s in stats if s["error"]]
        viols, seen = [], set()
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for f in sorted(glob.glob(os.path.join(base, "violation_*.json"))):
            v = json.load(open(f))
            if v["class"] in seen:
                continue
            # fresh-process gate
            r = subprocess.run([exe, "replay", "--file", f, "--quiet", "1", "--scratch", os.path.join(base, "replay")],
                               env=env, stdout=subprocess.PIPE, text=True)
            if r.returncode != 1:
                errs.append("replay in a fresh process did not reproduce %s: %s" % (v["class"], r.stdout[-300:]))
                continue
            seen.add(v["class"])
            dst = os.path.join(rd, "%s_%d_%s.json" % (prop, seed, hashlib.sha1(v["class"].encode()).hexdigest()[:8]))
            shutil.copy(f, dst)
            viols.append((v, dst))
        wall = time.time() - t0

        def tot(k):
            return sum(s[k] for s in stats)

        def merge(k):
            m = {}
            for s in stats:
                for n, c in s[k].items():
                    m[n] = m.get(n, 0) + c
            return dict(sorted(m.items()))
        states = set()
        for s in stats:
            states.update(s["states"])
        runs = tot("runs")
        swall = max([s["wall"] for s in stats] + [1e-9])
        sample_list = [x for s in stats for x in s["samples"]][:4] or ["none"]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": tot("evaluations"), "distinct_nontrivial": min(tot("nontrivial"), sum(s["histories"] for s in stats)),
                "rule": rule["rule"], "samples": sample_list,
                "simulated_runs": runs, "runs_per_hour": int(runs / swall * 3600), "seeds_per_hour": int(runs / swall * 3600),
                "simulated_seconds": round(tot("simtime"), 3), "recorded_history_events": tot("events"), "choices_drawn": tot("choices"),
                "faults_injected": merge("faults"), "rare_condition_probes": merge("probes"), "runs_per_workload": merge("workloads"),
                "distinct_states": len(states), "distinct_histories": sum(s["histories"] for s in stats),
                "state_measure": rule["states"], "minimiser_runs": tot("minimiser_runs"), "workers": a.workers,
                "known_finding_hits": merge("known"), "real_components": rule["real"], "stub_components": rule["stub"],
            },
            "wall_s": round(wall, 3), "violations": len(viols),
            "assumptions": rule["assumptions"],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s: %d runs, %d evaluations, %d nontrivial, %d distinct states, %.1fs; faults %s" % (
            prop, runs, tot("evaluations"), tot("nontrivial"), len(states), wall, json.dumps(merge("faults"))))
        print("probes %s" % json.dumps(merge("probes")))
        for c, d in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
        for v, dst in viols:
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("  class=%s workload=%s detail=%s" % (v["class"], v["workload"], v["detail"]))
            for line in v["trace"][-12:]:
                print("    " + line)
        if errs:
            for e in errs:
                print("ERROR:", e)
            return 1 if viols else 2
        if runs == 0:
            print("ERROR: nothing ran")
            return 2
        return 1 if viols else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
