#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation of the library built from /repo's working tree.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, with a minimised replay file.
Exit 2: the check itself failed (build error, nondeterminism, a violation that does not replay exactly)."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build
import props

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """lines: known<TAB>property<TAB>class<TAB>substring of the message<TAB>description"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            f = l.rstrip("\n").split("\t")
            if len(f) >= 5 and f[0] == "known" and f[1] == prop:
                out.append(f[1:5])
    return out


def main():
    prop = sys.argv[1]
    spec = props.CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    exe = build.build()
    if not exe:
        print("ERROR: the library or the simulator does not build")
        return 2
    t_build = time.time() - t0
    quick = spec.get("secs", 30)
    secs = float(os.environ.get("VERIF_SECS", quick if tier == "quick" else spec.get("deep", 600)))
    rep = os.path.join(VERIF, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    kf = known_findings(prop)
    kpath = os.path.join(build.OUT, "known.%s.tsv" % prop)
    with open(kpath, "w") as f:
        for k in kf:
            f.write("\t".join(k[:3]) + "\n")
    out = os.path.join(build.OUT, "out.%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "explore", "--prop=" + prop, "--seed=%d" % seed, "--n=%d" % spec.get("max_runs", 100000000), "--secs=%g" % secs, "--jobs=%d" % build.JOBS, "--tier=" + tier,
           "--minsecs=%g" % (45 if tier == "quick" else 180), "--known=" + kpath, "--replay_dir=" + rep, "--out=" + out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        print(p.stdout[-4000:])
        print("ERROR: exploration ended without a report (exit %d)" % p.returncode)
        return 2
    wall = time.time() - t0
    write_evidence(prop, spec, tier, seed, d, kf, wall, t_build, 1 if d.get("violation") else 0)
    for i, n in enumerate(d.get("known", [])):
        if n and i < len(kf):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, kf[i][3], n))
    print("%s: %d simulated runs, %.0f runs/h, %.1f simulated s, %d distinct schedules, %.1f s" % (prop, d["runs"], d["runs"] * 3600.0 / max(d["wall_s"], 0.001), d["sim_ns"] / 1e9, d["distinct_schedules"], wall))
    if p.returncode == 0 and not d.get("violation"):
        if d["runs"] < 1:
            print("ERROR: no run was completed")
            return 2
        return 0
    if p.returncode == 1 and d.get("violation"):
        # Nothing is reported that a fresh process does not reproduce exactly.
        for _ in range(2):
            q = subprocess.run([exe, "replay", d["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if q.returncode != 1 or "REPRODUCED exactly" not in q.stdout:
                print(q.stdout[-3000:])
                print("ERROR: the replay file %s does not reproduce: %s" % (d["replay"], d["violation"]))
                return 2
        print(p.stdout[-3000:])
        print(d["violation"])
        print("replay it with: %s replay %s -v" % (exe, d["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        return 1
    print(p.stdout[-4000:])
    print("ERROR: exploration ended with exit %d" % p.returncode)
    return 2


def write_evidence(prop, spec, tier, seed, d, kf, wall, t_build, violations):
    st = d.get("stats", {})
    faults = {k: v for k, v in st.items() if k.startswith("fault.") or k.startswith("crash")}
    sched = {k: v for k, v in st.items() if k.startswith("sched.")}
    work = {k: v for k, v in st.items() if k not in faults and k not in sched}
    hours = max(d["wall_s"], 0.001) / 3600.0
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct_traces"],
        "rule": "One evaluation is one complete simulated run of a plan (configuration, operations per thread, schedule and fault parameters) that the seeded generator of this property derives from one seed. "
                + spec["rule"] + " Runs are distinct when the hash over every scheduling point, basic-block preemption, disk operation, fault and clock value of the run differs; every plan contains operations of the property, so no run is trivial.",
        "samples": d.get("samples", [])[:3],
        "runs_per_hour": round(d["runs"] / hours),
        "seeds_per_hour": round(d["runs"] / hours),
        "seeds": "%d .. %d" % (d["base_seed"], d["base_seed"] + max(d["runs"] - 1, 0)),
        "simulated_seconds": round(d["sim_ns"] / 1e9, 3),
        "scheduling_points": d["steps"],
        "basic_blocks_executed": d["basic_blocks"],
        "disk_operations": d["vfs_ops"],
        "distinct_interleavings": d["distinct_schedules"],
        "interleaving_measure": "hash of the sequence (thread switched from, thread switched to, kind of scheduling point) of a run",
        "control_flow_edges_reached": d["edges_hit"],
        "control_flow_edges_total": d["edges_total"],
        "determinism_rechecks": d["determinism_rechecks"],
        "determinism_rule": "every 50th run and every violation is executed twice and must give the same trace hash; a violation must also replay exactly from its file in two fresh processes",
        "faults_injected": faults,
        "schedule_perturbations": sched,
        "work_done": work,
        "real_code": "all of /repo/src/core (compiled from the working tree, unmodified), Boost.Thread, Boost.Filesystem, libstdc++, zlib",
        "stubs": "the kernel interface: pthread mutexes, condition variables, threads and thread-local keys; clocks and sleeps; open/read/write/lseek/fsync/close/stat/rename/unlink/mkdir/opendir/readdir/flock/fcntl/mmap on a simulated disk; malloc",
        "build_s": round(t_build, 1),
        "known_findings": [{"what": k[3], "runs": (d.get("known") or [0] * len(kf))[i]} for i, k in enumerate(kf)],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
