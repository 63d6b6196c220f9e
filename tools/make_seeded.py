#!/usr/bin/env python3
"""Fills section 6 of DESIGN.md from seeded/*/meta.json and tools/seeded_notes.json (what was changed in a check that first missed one)."""
import json, os
R = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
notes = json.load(open(os.path.join(R, "tools", "seeded_notes.json")))
rows = []
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], notes.get(i, "")))
rows.sort()
out = ["<!-- seeded -->", "Each one is caught by the quick check of its property (exit 1 with the property's VIOLATION line)%s." % (
    " unless marked *missed*" if any("missed*" in r[4] for r in rows) else ""), "",
    "| property | planted bug | breaks | needs | first missed; strengthened by |", "|---|---|---|---|---|"]
out += ["| %s | %s | %s | %s | %s |" % r for r in rows]
out += ["<!-- end of seeded -->"]
d = os.path.join(R, "DESIGN.md")
s = open(d).read()
i = s.index("<!-- seeded -->")
j = s.find("<!-- end of seeded -->")
tail = s[j + len("<!-- end of seeded -->"):] if j >= 0 else s[i + len("<!-- seeded -->"):]
open(d, "w").write(s[:i] + "\n".join(out) + tail)
