#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the harness packages and tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import run
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = {p for v in run.PACKAGES.values() for p in v}
SCHED = ("stateless model checking of the compiled implementation: exhaustive delay-bounded schedules, faults and inputs on simulated threads, sockets and time")
SEQ = ("bounded exhaustive enumeration of inputs, operation sequences and randomness on the compiled implementation under a deterministic network and scheduler, against an independent reference model")
NOTE_SCHED = "The unchanged sources of mpc-net are compiled against controlled std/tokio/crossbeam/socket primitives; every schedule, time-out, short read/write and fault choice within the stated deviation bound is executed. Bounds: parties, messages and deviations as listed in the evidence; simulated primitives stand in for the operating system and tokio."
NOTE_SEQ = "Every element of the bounded space is executed on the real code (no sampling) and compared with a reference written independently. Bounds: small prime fields / widths, party counts and depths as listed in the evidence; the code is generic, larger fields are covered at boundary values only."
NA = {}
try:
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
except OSError:
    pass
checks = []
for p in ids:
    if p not in done:
        continue
    s = p.startswith("N") and p != "N10"
    checks.append({"property": p, "quick_cmd": "python3 tools/run.py %s" % p, "thorough_cmd": "python3 tools/run.py %s --thorough" % p,
                   "technique": SCHED if s else SEQ, "level": "model_checking", "level_note": NOTE_SCHED if s else NOTE_SEQ})
m = {"version": 1, "setup_cmd": "python3 tools/run.py --setup",
     "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS=--cfg verif (set by tools/run.py)", "source_commits": json.load(open(os.path.join(V, "tools", "hooks.json")))},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "machinery for this property is not built yet")} for p in ids if p not in done]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
