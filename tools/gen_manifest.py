#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C90": "pure function of its input: no concurrency, time, I/O or second party, so there is no schedule or fault to simulate; the packets are exercised by every simulated transfer instead"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s" % i,
            "thorough_cmd": "./check %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, network, storage, clock and crash faults",
            "level": "exploration",
            "level_note": PLAN[i].get("note", "the shipped programs run unmodified under a simulated kernel interface; seeded random schedules and faults, every run repeatable from its seed; see DESIGN.md, " + i),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
