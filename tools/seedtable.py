"""Rewrite the table of planted bugs in DESIGN.md (between its markers)"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
p = os.path.join(V, "tools", "caught.json")
caught = json.load(open(p)) if os.path.exists(p) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
  m = json.load(open(os.path.join(d, "meta.json")))
  i = os.path.basename(d)
  rows.append("| %s | %s | %s | %s | %s |" % (
      i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "?")))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->"
if "SEEDTABLE" in s:
  s = s.replace("SEEDTABLE", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
