#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records the repair of a defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
n = 1 + max(int(e["id"][1:]) for e in d["findings"])
d["findings"].append({"id": "F%d" % n, "property": sys.argv[1], "status": "fixed",
                      "entry": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
json.dump(d, open(p, "w"), indent=1)
