#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Builds the simulator from /repo's working tree in two profiles (with and
without overflow checks and debug assertions), searches the simulated runs of
the property, minimises and replays the first violation, writes the evidence.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("SIM_TARGET", os.path.join(HERE, "target"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import about

PROFILES = [("dev", "debug", []), ("release", "release", ["--release"])]


def fail(msg):
    print("check error: " + msg)
    sys.exit(3)


def binary(directory):
    return os.path.join(TARGET, "x86_64-unknown-linux-gnu", directory, "sim")


def build():
    ps = []
    for name, _, args in PROFILES:
        ps.append((name, subprocess.Popen(["bash", os.path.join(HERE, "bin", "build.sh"), *args],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for name, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stdout.write(out.decode(errors="replace")[-6000:])
            fail("the simulator does not build against /repo (%s profile)" % name)


def parse(path):
    d = {"fault": {}, "probe": {}, "opcount": {}, "other": []}
    for line in open(path, errors="replace"):
        k, _, v = line.rstrip("\n").partition(" ")
        if k in ("fault", "probe", "opcount"):
            a, b = v.split()
            d[k][int(a)] = int(b)
        elif k == "first":
            i, _, t = v.partition(" ")
            d["first"] = (int(i), t)
        elif k == "other":
            d["other"].append(v)
        elif k == "wall":
            d[k] = float(v)
        else:
            d[k] = int(v)
    return d


def names(scen):
    out = subprocess.run([binary("debug"), "names", "scen=%d" % scen], capture_output=True, text=True).stdout
    r = {"op": {}, "fault": {}}
    for l in out.splitlines():
        k, n, t = l.split(" ", 2)
        r[k][int(n)] = t
    return r


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in about.PROPS or tier not in ("quick", "thorough"):
        fail("usage: check.py <property> <quick|thorough>")
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    num = int(prop[1:])
    build()
    t_build = time.time() - t0
    info = about.PROPS[prop]
    n = info["runs"] * (1 if tier == "quick" else about.THOROUGH)
    cap = 240 if tier == "quick" else 3000
    scratch = os.path.join(TARGET, "out")
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ps = []
    cores = max(2, os.cpu_count() or 2)
    for k, (name, d, _) in enumerate(PROFILES):
        out = os.path.join(scratch, "%s-%s-%d.txt" % (prop, name, os.getpid()))
        ps.append((name, d, out, subprocess.Popen(
            [binary(d), "batch", "prop=%d" % num, "seed=%d" % seed, "from=%d" % k, "stride=2", "to=%d" % n,
             "workers=%d" % (cores // 2), "secs=%d" % cap, "out=" + out])))
    res = []
    for name, d, out, p in ps:
        p.wait()
        if p.returncode != 0 or not os.path.exists(out):
            fail("the search ended with status %s (%s profile)" % (p.returncode, name))
        res.append((name, d, parse(out)))
        os.unlink(out)
    tot = lambda k: sum(r[2].get(k, 0) for r in res)
    for name, _, r in res:
        for o in r["other"]:
            print("note (%s): %s" % (name, o))
    # the lowest violating run of each profile, minimised
    replay = None
    for name, d, r in sorted(res, key=lambda r: r[2].get("first", (1 << 62,))[0]):
        if "first" not in r or replay:
            continue
        i, text = r["first"]
        f = os.path.join(HERE, "replays", "%s-seed%d-run%d.txt" % (prop, seed, i))
        m = subprocess.run([binary(d), "min", "prop=%d" % num, "seed=%d" % seed, "index=%d" % i, "secs=25", "out=" + f],
                           capture_output=True, text=True, errors="replace")
        if m.returncode != 0:
            print("note: run %d (%s) reported %s but did not repeat it" % (i, name, text))
            continue
        again = subprocess.run([binary(d), "replay", f], capture_output=True, text=True, errors="replace")
        print(m.stdout.strip())
        if again.returncode == 1:
            replay = f
        else:
            print("note: the minimised run did not replay: " + again.stdout)
    sc = info["scenario"]
    nm = names(sc)
    faults = {nm["fault"][k]: sum(r[2]["fault"].get(k, 0) for r in res) for k in nm["fault"]}
    faults = {k: v for k, v in faults.items() if v}
    opc = {}
    for r in res:
        for k, v in r[2]["opcount"].items():
            t = nm["op"].get(k, str(k))
            opc[t] = opc.get(t, 0) + v
    search = max(r[2]["wall"] for r in res)
    samples = []
    for name, d, r in res:
        for i in about.SAMPLES:
            i = i * 2 + (name == "release")
            if i >= n:
                continue
            out = subprocess.run([binary(d), "show", "prop=%d" % num, "seed=%d" % seed, "index=%d" % i],
                                 capture_output=True, text=True).stdout
            samples.append("VERIF_SEED=%d run %d\n%s" % (seed, i, out))
    viol = tot("viol")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("histories"),
            "rule": info["rule"],
            "samples": samples,
            "runs_by_profile": {r[0]: r[2]["runs"] for r in res},
            "runs_ended_at_allocation_error_exit": tot("oom"),
            "runs_per_hour": int(tot("runs") / max(search, 0.001) * 3600),
            "seeds_per_hour": int(tot("runs") / max(search, 0.001) * 3600),
            "simulated_seconds": round(tot("vtime") / 1e9, 3),
            "operations_executed": tot("ops"),
            "operations_by_kind": opc,
            "memory_accesses_checked": tot("hooks"),
            "scheduling_points": tot("points"),
            "context_switches": tot("switches"),
            "distinct_interleavings": tot("interleavings"),
            "interleaving_measure": "distinct sequences of (from thread, its step, to thread) over all context switches of a run, per profile; runs without a switch are not counted",
            "faults_injected": faults,
            "situations_reached": {about.PROBES[k]: sum(r[2]["probe"].get(k, 0) for r in res)
                                   for k in sorted(about.PROBES) if any(r[2]["probe"].get(k, 0) for r in res)},
            "violations_of_other_properties_seen": tot("foreign"),
            "runs_repeated_for_determinism_that_differed": tot("nondet"),
            "harness_errors": tot("harness"),
            "build_s": round(t_build, 1),
            "search_s": round(search, 1),
            "components_real": about.REAL,
            "components_stubbed": about.STUB,
        },
        "assumptions": about.ASSUME + info.get("assume", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": viol,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs, %d distinct histories, %d distinct interleavings, %d faults, %.0f s search, %.0f s build" % (
        prop, tier, tot("runs"), tot("histories"), tot("interleavings"), sum(faults.values()), search, t_build))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if viol:
        fail("a violation was reported but does not repeat")
    if tot("harness"):
        fail("the harness failed in %d runs" % tot("harness"))
    if tot("nondet"):
        fail("%d runs did not repeat exactly" % tot("nondet"))
    for k in info.get("need", []):
        if not sum(r[2]["probe"].get(k, 0) for r in res):
            fail("the search never reached: " + about.PROBES[k])
    sys.exit(0)


main()
