#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and search for violations of one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seconds N] [--replay FILE]

exit 0  the property held on everything explored
exit 1  a violation was found; the last line is  VIOLATION property=<id> replay=<path>
other   the check itself failed (build error, non-reproducible run, ...)
"""
import argparse
import fcntl
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
QUICK_SECONDS = 25.0
THOROUGH_SECONDS = 600.0


def die(msg, rc=2):
    print("check error: " + msg)
    sys.exit(rc)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(BUILD, "build.log")
        with open(log, "w") as lf:
            if subprocess.call(["cmake", "-G", "Ninja", "-DREPO=" + REPO, "-S", os.path.join(HERE, "sim"), "-B", BUILD],
                               stdout=lf, stderr=subprocess.STDOUT) != 0 or \
               subprocess.call(["ninja", "-C", BUILD, "-j", "8"] + targets, stdout=lf, stderr=subprocess.STDOUT) != 0:
                lf.flush()
                with open(log) as f:
                    sys.stdout.write(f.read()[-6000:])
                die("build failed")


def symbolise(binary, text):
    def sub(m):
        try:
            out = subprocess.run(["addr2line", "-C", "-f", "-p", "-s", "-e", binary, "0x" + m.group(2)],
                                 capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception:
            return m.group(0)
        out = re.sub(r" \(discriminator \d+\)", "", out)
        return m.group(1) + m.group(2) + " {" + out[:160] + "}"
    return re.sub(r"(pc[= ])([0-9a-f]{5,8})", sub, text)


def known_findings(prop):
    res = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    build(["sim_" + prop])
    t_build = time.time() - t0
    binary = os.path.join(BUILD, "sim_" + prop)
    if a.replay:
        p = subprocess.run([binary, "replay", a.replay], capture_output=True, text=True)
        print(symbolise(binary, p.stdout.strip()))
        sys.exit(p.returncode)

    known_hit = []
    for rel, what in known_findings(prop):
        p = subprocess.run([binary, "replay", os.path.join(HERE, rel)], capture_output=True, text=True, timeout=120)
        if p.returncode in (1, 2) and re.search(r"recorded class (\S+)", p.stdout) and \
                re.search(r": (\S+?): ", p.stdout) and \
                re.search(r": (\S+?): ", p.stdout).group(1) == re.search(r"recorded class (\S+)", p.stdout).group(1):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            known_hit.append(what)

    secs = a.seconds or (QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS)
    outdir = os.path.join(BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    js = os.path.join(outdir, prop + ".json")
    rp = os.path.join(outdir, prop + ".replay")
    for f in (js, rp):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary, "run", "--seed", str(seed), "--time", str(secs), "--workers", str(a.workers), "--json", js,
           "--replay-out", rp, "--min-time", "60" if tier == "quick" else "180"]
    if tier == "thorough":
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL)
    if not os.path.exists(js):
        die("the search ended without a report (exit %d)" % p.returncode)
    r = json.load(open(js))
    wall = time.time() - t0

    violation = r.get("violation")
    if violation:
        violation["message"] = symbolise(binary, violation["message"])
    cov = {
        "evaluations": r["runs"],
        "distinct_nontrivial": min(r["distinct_interleavings"], r["runs"]),
        "rule": "one evaluation is one simulated run: a generated program of operations executed under one seeded "
                "schedule and fault sequence; distinct = different order of synchronisation operations (which thread, "
                "which program point), or, for a run of one thread, a different history (the order of suspensions, "
                "resumptions, calls and outcomes recorded by the harness)",
        "samples": r["sample_cases"],
        "simulated_runs_per_hour": int(r["runs"] / max(r["wall_s"], 1e-9) * 3600),
        "seeds_per_hour": int(r["runs"] / max(r["wall_s"], 1e-9) * 3600),
        "simulated_seconds": r["simulated_ns"] / 1e9,
        "search_wall_s": r["wall_s"],
        "workers": r["workers"],
        "scheduling_points": r["steps"],
        "context_switches": r["switches"],
        "operations": r["operations"],
        "multi_thread_runs": r["multi_thread_runs"],
        "distinct_interleavings": r["distinct_interleavings"],
        "distinct_executions": r["distinct_executions"],
        "abstract_states": r["abstract_states"],
        "faults_injected": r["faults"],
        "runs_per_scenario": r["scenarios"],
        "rare_conditions_reached": r["probes"],
        "determinism": {"same_seed_run_twice": r["same_seed_twice"], "recorded_schedule_replayed": r["recorded_schedule_replayed"], "mismatches": 1 if r["verdict"] == "nondeterministic" else 0},
        "components": r["components"],
        "build_s": round(t_build, 2),
        "verdict": r["verdict"],
    }
    if known_hit:
        cov["known_findings"] = known_hit
    if violation:
        cov["violation"] = violation
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "sequentially consistent interleavings at the granularity of instrumented accesses; weaker memory orders are covered through happens-before race detection, not by simulating stale values",
            "x86_64 System V context switch, GCC, the default build options of /opt/vp/cmake/CMakeLists.txt",
            "a clean batch is evidence from sampled runs, not a proof",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if r["verdict"] == "violation" else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    print("%s: %d simulated runs in %.1f s (%d/h), %d distinct interleavings, verdict %s" % (
        prop, r["runs"], r["wall_s"], cov["simulated_runs_per_hour"], r["distinct_interleavings"], r["verdict"]))
    if r["verdict"] == "ok":
        sys.exit(0)
    if r["verdict"] == "violation":
        q = subprocess.run([binary, "replay", rp], capture_output=True, text=True, timeout=300)
        if q.returncode != 1:
            die("the minimised replay did not reproduce in a fresh process: " + q.stdout)
        print("class: %s" % violation["class"])
        print("message: %s" % violation["message"])
        print("scenario %s, seed %s, %d operations (of %d), %d scheduling decisions (of %d)" % (
            violation["scenario"], violation["seed"], violation["ops"], violation["ops_before"], violation["decisions"],
            violation["decisions_before"]))
        with open(rp) as f:
            for line in f:
                if line.startswith(("op ", "cfg ")):
                    print("  " + line.rstrip())
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    die("%s: %s" % (r["verdict"], violation["message"] if violation else ""), 3)


if __name__ == "__main__":
    main()
