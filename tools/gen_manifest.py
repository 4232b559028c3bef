#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and tools/about.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import about
TECH = {
 "C01": "deterministic simulation: seeded scheduling of every shared access with heap, element and handle accounting",
 "C02": "deterministic simulation: seeded scheduling with happens-before race detection and content comparison",
 "C03": "deterministic simulation: injected panics in user code at every point, with heap accounting and reference model",
 "C04": "deterministic simulation: injected allocation failures with heap accounting and reference model",
 "C05": "deterministic simulation: simulated disk with I/O faults and concurrent writers, history check",
 "C06": "deterministic simulation: simulated disk with torn, lost and corrupted writes, independent decoder as oracle",
 "C07": "deterministic simulation: seeded schedules and entropy faults, linearizability check of stream allocation",
 "C08": "deterministic simulation: seeded schedules, comparison of streams with a fresh single-threaded process",
 "C09": "deterministic simulation: seeded schedules, nesting and failures, refinement of a sequential reference model",
 "C10": "deterministic simulation: stalled and dying threads, bounded-progress check",
 "C11": "deterministic simulation: seeded schedules and panics, callback history compared with the sequential order",
}
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the unmodified library is compiled with -Zsanitizer=thread instrumentation (RUSTC_WRAPPER) whose runtime functions the simulator provides; libc and allocator symbols are interposed.", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p in sorted(about.PROPS):
    m["checks"].append({"property": p,
        "quick_cmd": "python3 bin/check.py %s quick" % p,
        "thorough_cmd": "python3 bin/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p], "level": "exploration",
        "level_note": "Seeded search over simulated runs of the real code in two build profiles; exact replay of every violation. "
          + " ".join(about.ASSUME)})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
