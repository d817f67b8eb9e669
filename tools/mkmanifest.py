#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
MODEL = "runtime monitoring: recorded event logs of generated executions on an instrumented in-memory file system, compared by a reference model (oracle); fault and panic injection"
CONC = "race detector and online/offline monitors (exactly-once, bounds, correspondence, liveness) over stressed concurrent runs with injected delays and cancellations"
T = {f"P{i:02}": MODEL for i in range(1, 29)}
T.update({p: CONC for p in ("P16", "P17", "P18", "P19", "P24")})
T["P23"] = "online monitor: random operation histories on the real collections, each response checked against an abstract model"
T["P25"] = "online monitor: random histories of (de)registrations and emissions on the real bus, each delivery checked against an abstract model; race detector"
T["P15"] = MODEL + "; options in force observed in the resumed session and its behaviour compared"
T["P20"] = "runtime monitoring: every misuse (enumerated) in generated configurations; monitor for callbacks, panics and the identity of the error"
T["P26"] = MODEL + "; options in force and calls of handlers monitored"
T["P28"] = "runtime monitoring under fault injection: saved states truncated and mutated value by value; monitors for panics, errors, and nodes outside of the tree"
T["P29"] = "online monitor: random combinations of wrapped errors put to every predicate, texts examined, concurrently; race detector"
T["P30"] = "runtime monitoring: arbitrary values converted, saved and loaded by the real code, compared setting by setting (by reflection); every single difference injected and required to be noticed"
T["P31"] = MODEL + "; records received by the client's log handler monitored"
NOTE = "Holds for the executions generated from the seed (counts in the evidence file); trusts the reference model and the in-memory file system of /verif/harness."
DONE = sys.argv[1:] or [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                 "thorough_cmd": f"python3 check.py {p['id']} thorough",
                 "technique": T[p["id"]], "level": "exploration", "level_note": NOTE}
                for p in props if p["id"] in DONE],
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in DONE],
     "notes": "No hooks in /repo: the harness uses public interfaces (P25, P30: internal packages) and is compiled into the module by a go build overlay. Findings: KNOWN-FINDINGS.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
