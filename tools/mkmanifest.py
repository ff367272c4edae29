#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py; every listed property is either claimed or not applicable with a reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        d = PLAN[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/run_check.py {i} --tier quick", "thorough_cmd": f"python3 tools/run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: seeded search over schedules, delays and faults of the real library on a simulated kernel (threads, clocks, sockets, epoll, heap)",
            "level": "exploration", "level_note": d.get("note", "Holds on every seeded run explored; no guarantee beyond them. Trusts the simulated kernel (sim/), the oracle (harness/) and Boost.Asio; memory is sequentially consistent; threads switch between instrumented memory accesses and at synchronisation points.")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/run_check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library runs unmodified, compiled with -fsanitize=thread instrumentation whose runtime is replaced by the simulator in sim/, which also interposes pthreads, clocks, sockets, epoll, timerfd, eventfd and the heap."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
