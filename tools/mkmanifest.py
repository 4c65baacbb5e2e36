#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS, LEVEL_NOTE
PURE = "a pure function of its input: no schedule, clock, fault, I/O or history for deterministic simulation to control"
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py all", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: every seam is at the libc, allocator and compiler-instrumentation boundary", "source_commits": []},
     "notes": "Deterministic simulation with fault injection. check.py rebuilds from /repo's working tree; 'build/asan/sim run FILE -v' ('build/thr/simthr' for C21) replays a file."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": c.get("technique", "deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model"),
                            "level": "exploration", "level_note": c.get("note", LEVEL_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": PURE if i[0] == "N" else "its simulation is not built yet"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
