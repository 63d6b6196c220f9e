#!/usr/bin/env python3
"""Fills the generated part of DESIGN.md (claims, bounds, assumptions) from the check modules."""
import importlib, json, os, sys
R = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path[:0] = [R, "/repo"]
from symx import env as E

E.load_all()
out = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(R, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("| claim | code | bounds, quick (thorough) | configurations |\n|---|---|---|---|")
    for c in m.CLAIMS:
        out.append("| %s | %s | %s | %d (%d) |" % (c.name, c.covers, c.bounds, len(c.quick), len(c.thorough)))
    out.append("\nAssumed: " + "; ".join(m.ASSUMPTIONS) + ".\n")
d = os.path.join(R, "DESIGN.md")
s = open(d).read()
a, b = "<!-- claims -->\n", "<!-- end of claims -->"
i, j = s.index(a) + len(a), s.index(b)
open(d, "w").write(s[:i] + "\n".join(out) + s[j:])
