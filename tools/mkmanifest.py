#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
TECH = {
    "C22": "explicit-state exploration of all query histories of the real code to a depth bound, against a history-free model",
    "C23": "stateless model checking: all thread schedules of the real code within a preemption bound, under a controlled scheduler",
    "C24": "explicit-state exploration of all registration histories to a depth bound on a real butler, against a model of its records",
    "C25": "exhaustive fault and crash-point enumeration over registration histories on a real butler, against a model of its records",
}
DEFAULT = "explicit-state enumeration of a bounded configuration and operation space, every model transition replayed on the real code"
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "mc/props/%s.py" % p.lower())):
        continue
    mod = importlib.import_module("mc.props." + p.lower())
    note = "Complete within: " + mod.BOUNDS["quick"] + " (thorough: " + mod.BOUNDS["thorough"] + ")."
    base = ["lsst.geom, lsst.afw.geom and lsst.pex.exceptions are stand-ins in /verif/shim"] if p not in ("C01", "C02", "C03", "C27") else []
    ass = base + list(mod.ASSUMPTIONS)
    if ass:
        note += " Assumes: " + "; ".join(ass) + "."
    checks.append(dict(property=p, quick_cmd="%s -m mc %s --tier quick" % (PY, p),
                       thorough_cmd="%s -m mc %s --tier thorough" % (PY, p),
                       evidence_file="evidence/%s.json" % p,
                       technique=TECH.get(p, DEFAULT), level="model_checking", level_note=note))
man = dict(version=1, setup_cmd="%s tools/shim_conformance.py" % PY, checks=checks, not_applicable=[],
           notes="Known findings: KNOWN_FINDINGS.txt. No hooks in /repo are needed: the schedules, faults and environment are controlled from outside. "
                 "Set MC_SLOW=1 to list the slowest scenarios of a check; --only NAME runs one scenario.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
