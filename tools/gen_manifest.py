#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per scen_<id>*.cpp, everything else in not_applicable."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
have = {re.match(r"scen_(P\d+)", os.path.basename(f)).group(1) for f in glob.glob(os.path.join(here, "sim", "scen_P*.cpp"))}
NA = {}
NOTE = "Seeded sampling of schedules, faults and workloads over the real library code compiled from the working tree; every memory access of the library is a scheduling point. Trusts the simulated runtime (sim/rt.cpp), the reference model in the scenario file and GCC's instrumentation; interleavings are sequentially consistent, weak memory orders are judged by happens-before analysis."
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "deterministic simulation with seeded schedule search and fault injection, checked against an executable reference model",
                 "level": "exploration", "level_note": NOTE} for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in props if p["id"] not in have]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
