#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Rebuilds the simulator from /repo's working tree, runs seeded simulations which decide the property,
and rewrites evidence/<property>.json.  Exit 0: held; 1: a VIOLATION line was printed; 2: no answer.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, REAL, STUB  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))


def known(prop):
    """Entries 'known: property=C01 class=... detail=<regex> plan=<file> -- <what fails>'"""
    r = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) detail=(\S+) plan=(\S+) -- (.*)", ln)
            if m and m.group(1) == prop:
                r.append(dict(zip(("cls", "detail", "plan", "text"), m.groups()[1:])))
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    engine = spec.get("engine", "asan")
    r = subprocess.run([sys.executable, os.path.join(HERE, "build.py"), engine])
    if r.returncode:
        return 2
    sim = os.path.join(BUILD, "asan/sim" if engine == "asan" else "thr/simthr")
    tbuild = time.time() - t0
    secs = float(spec.get("secs", 25)) if tier == "quick" else float(os.environ.get("VERIF_SECS", "600"))
    count = spec["count"] if tier == "quick" else 10 ** 9
    out = os.path.join(HERE, "replays", "%s-report-%d.json" % (prop, os.getpid()))
    cmd = [sim, "batch", "--scen", spec["scen"], "--base", str(seed * 1000003 + (0 if tier == "quick" else 500009)),
           "--count", str(count), "--jobs", str(os.cpu_count() or 4), "--secs", str(secs),
           "--per", str(spec.get("per", 200)), "--maxfail", "6", "--out", out]
    own = sum([["--" + k, spec[k]] for k in ("classes", "needs") if k in spec], [])
    cmd += own
    print("seed %d tier %s: %s" % (seed, tier, " ".join(cmd)), flush=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-4000:])
        print("ERROR: the simulator gave no report")
        return 2
    d = json.load(open(out))
    os.unlink(out)
    kn = known(prop)
    new, kept, unsure = [], [], []
    for f in d["failures"]:
        hit = [k for k in kn if k["cls"] == f["class"] and re.search(k["detail"], f["detail"])]
        if hit:
            kept.append(f)
        elif not f["reproduced"]:
            unsure.append(f)
        elif f["class"] not in [x["class"] for x in new]:
            new.append(f)
    for k in kn:
        q = subprocess.run([sim, "run", os.path.join(HERE, k["plan"])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        if q.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    counters = d["counters"]
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    other = {k: v for k, v in counters.items() if not k.startswith("fault.")}
    wall = d["wall"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
        "assumptions": spec.get("assumes", []),
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct_runs"],
            "rule": "One evaluation is one simulated run: a plan (workload, schedule and faults) generated from one seed and executed "
                    "against the real library. " + spec["rule"] + " Distinct: runs whose whole event log (operations, results, faults, observed "
                    "contents) hashes differently; a run that executes no operation of the library is never generated.",
            "samples": d["samples"],
            "runs_per_hour": int(d["runs"] / wall * 3600) if wall else 0,
            "seeds_per_hour": int(d["runs"] / wall * 3600) if wall else 0,
            "simulation_wall_s": round(wall, 2), "build_wall_s": round(tbuild, 2),
            "simulated_seconds": round(d["sim_ns"] / 1e9, 3),
            "simulated_seconds_jumped_over": round(d["jumped_ns"] / 1e9, 3),
            "plan_steps": d["plan_lines"],
            "faults_injected": faults,
            "reach_probes": other,
            "distinct_states": d["distinct_states"],
            "distinct_states_saturated": d["states_saturated"],
            "state_measure": spec.get("measure", "hash of the observable contents of all handles after a step"),
            "determinism_reruns": d["determinism_checked"], "determinism_mismatches": d["determinism_bad"],
            "stopped_by_time": d["runs"] < count and tier == "quick",
            "real_components": spec.get("real", REAL), "stub_components": spec.get("stub", STUB),
            "known_findings_met": len(kept),
            "failures_of_other_properties": d["foreign"],
        },
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%d runs in %.1f s, %d distinct, %d states, faults %s" % (d["runs"], wall, d["distinct_runs"], d["distinct_states"], json.dumps(faults)))
    if new:
        for n, f in enumerate(new[:3]):
            cls = re.sub(r"[^A-Za-z0-9]+", "-", f["class"]).strip("-")
            raw = os.path.join(HERE, "replays", "%s-%s.full.plan" % (prop, cls))
            path = os.path.join(HERE, "replays", "%s-%s.plan" % (prop, cls))
            with open(raw, "w") as o:
                o.write(f["plan"])
            m = subprocess.run([sim, "min", raw, path, "--budget", "1500", "--secs", "40"] + own, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            if m.returncode:
                path = raw
            q = subprocess.run([sim, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            print("---- %s (seed %s, run %s)\n%s" % (f["class"], f["seed"], f["index"], f["detail"][:1500]))
            print("---- minimised: %s" % path)
            print(open(path).read()[:3000])
            if q.returncode != 1:
                print("ERROR: the replay file did not reproduce")
                if n == 0 and len(new) == 1:
                    return 2
                continue
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    bad = []
    if unsure:
        bad.append("%d failures did not reproduce in a fresh process, e.g. %s: %s" % (len(unsure), unsure[0]["class"], unsure[0]["detail"][:600]))
    if d["determinism_bad"] or d["harness_errors"]:
        bad.append("harness: " + d["harness_text"])
    if d["runs"] == 0:
        bad.append("no run completed")
    if d["foreign"]:
        print("NOTE: %d runs failed in ways which belong to other properties, e.g. %s" % (d["foreign"], d["foreign_text"]))
    for b in bad:
        print("ERROR: " + b)
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
