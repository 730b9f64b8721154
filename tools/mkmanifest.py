#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl, lib/props.py and the table below.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import props
SCHED = ("stateless model checking of the real code under a controlled scheduler (bounded-weight exhaustive interleaving exploration)", "model_checking",
         "Every interleaving of the closed scenarios up to the stated weight of preemptions and non-default switches is executed on the real code; nothing is claimed beyond those scenarios and bounds. Trusted: the patched Go runtime that serialises goroutines, and the scenario drivers.")
ENUM = ("exhaustive enumeration of a bounded space of operation histories or inputs on the real code against a reference model", "exploration",
        "Every case of the stated finite space is run on the real code and compared with a reference model; values outside the alphabet are not covered. Trusted: the reference model in the harness.")
KIND = {"P02": SCHED, "P03": SCHED}
NA = {}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in props.CHECKS:
        t, l, n = props.META.get(i, {}).get("kind") or (ENUM if getattr(props, "LEVEL", {}).get(i) == "exploration" else SCHED)
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: scheduling points come from a build overlay of the Go toolchain's own runtime and sync packages (rt/), applied at build time only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
