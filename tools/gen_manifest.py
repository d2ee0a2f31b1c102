"""Writes /verif/MANIFEST.json from the property list and the existing checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = ("explicit-state exploration of the real model: all policy paths of a bounded action alphabet are evaluated by the model's own "
        "equations (Pyomo constraints compiled to transition functions) and compared with an independent reference; traces are replayed "
        "through Pyomo's evaluator")
OPS = "exhaustive enumeration of operation sequences / configurations on the real code, compared with an independent reference model"
TECH = {**{f"C{i:02d}": OPS for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 26, 27, 28, 29)},
        **{f"C{i:02d}": PATH for i in (10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 25)}}
TECH["C21"] = TECH["C24"] = TECH["C26"] = PATH
NOTE = {"C29": "explicit enumeration of configurations and of solve/answer histories; the problem file written for the solver is parsed and every row evaluated at the solver's start",
        "C28": "stateful exploration of all solver outcome sequences up to depth 2-3 with a scripted solver as fault injector and a monitor on the log",
        "C22": "stateful exploration of all solver outcome sequences up to depth 3-4 with a scripted solver as fault injector"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        cmd = f"/opt/venv/bin/python -m mc.run {pid}"
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                       "technique": "model checking: " + (NOTE.get(pid) or TECH[pid]),
                       "level": "model_checking",
                       "level_note": "exhaustive within the bounds listed in DESIGN.md and the evidence file",
                       "evidence_file": f"evidence/{pid}.json"})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import mc.impl\"", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
