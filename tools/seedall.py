"""seedall.py [ID...]: runs the check of each planted bug against a scratch copy
and records the scenario that catches it in tools/caught.json"""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools", "caught.json")
got = json.load(open(p)) if os.path.exists(p) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
  m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
  r = subprocess.run([os.path.join(V, "tools", "seedtest.sh"), i], text=True,
                     capture_output=True, env=dict(os.environ, TAIL="40"))
  s = re.search(r"^scenario ([^,]*), case", r.stdout, re.M)
  ok = "VIOLATION property=" + m in r.stdout and "exit=1" in r.stdout
  got[i] = "%s: %s" % (m, s.group(1) if s else "?") if ok else "missed"
  print(i, got[i], flush=True)
  json.dump({k: got[k] for k in sorted(got)
             if os.path.isdir(os.path.join(V, "seeded", k))},
            open(p, "w"), indent=1)
