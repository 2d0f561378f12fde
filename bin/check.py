#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulated HELICS from /repo and searches for violations of PROPERTY.

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick).
Exit 0: held on everything explored; 1: a line "VIOLATION property=<id> replay=<path>"; 2: error of the check.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, REAL, STUBS, ASSUMPTIONS  # noqa: E402

def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    path = os.path.join(evid, prop + ".json")
    if os.path.exists(path):
        os.unlink(path)
    b = subprocess.run([sys.executable, os.path.join(VERIF, "bin", "build.py"), "helicssim"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        sys.stdout.write(b.stdout[-6000:])
        print("check error: the simulation build failed")
        return 2
    build_s = time.time() - t0
    workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))
    known = os.path.join(VERIF, "known_findings.txt")
    cmd = [os.path.join(VERIF, "build", "helicssim"), "check", prop, "--seed", str(seed),
           "--workers", str(workers), "--out", evid, "--known", known]
    if tier == "quick":
        cmd += ["--budget", str(spec.get("quick_s", 40)), "--min-seconds", "45"]
        if "runs" in spec:
            cmd += ["--runs", str(spec["runs"])]
    else:
        cmd += ["--budget", str(spec.get("thorough_s", 1800)), "--min-seconds", "600"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       cwd=evid)
    sys.stdout.write(r.stdout[-6000:])
    summary = os.path.join(evid, "summary-%s.json" % prop)
    try:
        s = json.load(open(summary))
    except (OSError, ValueError) as e:
        print("check error: no summary (%s), exit code %d" % (e, r.returncode))
        return 2
    violated = r.returncode == 1
    replay = os.path.join(evid, "replay-%s.json" % prop)
    search_s = max(s["wall_s"], 1e-9)
    cnt = s["counters"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["nontrivial"],
            "rule": "one evaluation is one complete simulated run: workload, topology, schedule, network behaviour and "
                    "faults are drawn from the run's seed. Non-trivial: " + spec["nontrivial"] +
                    " Distinct: by the hash of every decision and scheduling event of the run.",
            "samples": s["samples"] or ["(no non-violating run)"],
            "seeds_per_hour": round(s["runs"] / search_s * 3600),
            "runs_per_hour": round(s["runs"] / search_s * 3600),
            "simulated_seconds": s["simulated_s"],
            "distinct_interleavings": s["interleavings"],
            "interleaving_measure": "hash of the sequence of scheduling decisions of a run",
            "scenarios": s["scenarios"],
            "faults_injected": {k: v for k, v in cnt.items() if k.startswith(("net.", "fault.", "disk.", "alloc.", "clock."))},
            "conditions_reached": {k: v for k, v in cnt.items() if k.startswith("reach.")},
            "scheduling": {k: v for k, v in cnt.items() if k.startswith("sched.")},
            "determinism_rechecks_identical": s["determinism_rechecks_ok"],
            "determinism_rechecks_different": s["determinism_rechecks_bad"],
            "known_findings_seen": s["known"],
            "violation_classes_seen": s["classes"],
            "real_code": spec.get("real", REAL),
            "stubs": spec.get("stubs", STUBS),
            "workers": workers, "build_s": round(build_s, 1), "search_s": round(search_s, 1),
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    if violated:
        ev["coverage"]["replay"] = replay
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in known_lines(known, prop):
        seen = s["known"].get(line[1], 0)
        print("KNOWN-FINDING: property=%s %s (seen in %d of %d runs)" % (prop, line[1], seen, s["runs"]))
    if violated:
        print("replay with: %s replay %s" % (os.path.join(VERIF, "build", "helicssim"), replay))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if r.returncode != 0:
        print("check error: exit code %d" % r.returncode)
        return 2
    if s["runs"] == 0 or s["nontrivial"] == 0:
        print("check error: nothing was explored")
        return 2
    print("property %s held on %d simulated runs (%d distinct non-trivial)" % (prop, s["runs"], s["nontrivial"]))
    return 0

def known_lines(path, prop):
    out = []
    try:
        for line in open(path):
            if line.startswith(("#", "fixed:")) or not line.strip():
                continue
            p = line.rstrip("\n").split("\t")
            if len(p) >= 4 and p[0] == prop:
                out.append((p[1], p[3]))
    except OSError:
        pass
    return out

if __name__ == "__main__":
    sys.exit(main())
