#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes seeded bugs out of a list SEEDS of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=code)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns["SEEDS"]:
  if only and s["id"] not in only:
    continue
  d = tempfile.mkdtemp(prefix="/tmp/mkseed.")
  r = os.path.join(d, "repo")
  subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
  subprocess.check_call(["cp", "-a", "/repo", r])
  subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
  for f, old, new in s["edits"]:
    p = os.path.join(r, f)
    t = open(p).read()
    assert t.count(old) == 1, (s["id"], f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
  o = os.path.join(V, "seeded", s["id"])
  os.makedirs(o, exist_ok=True)
  diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
  open(o + "/patch.diff", "w").write(diff)
  # lines changed must be lines of the original repository
  base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
  orig = {}
  for l in diff.splitlines():
    if l.startswith("--- a/"):
      cur = subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + l[6:]], text=True).splitlines()
    elif l.startswith("-") and l[1:].strip() and l[1:] not in cur:
      print(s["id"], "WARNING: not an original line:", l)
  for f in s.get("files", ()):
    shutil.copy(os.path.join(V, "lib", f), o)
  open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
  open(o + "/demo.sh", "w").write(
      '#!/bin/bash\n# run with cwd = repository root\n'
      'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy OMP_NUM_THREADS=1\n'
      'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
  json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
            open(o + "/meta.json", "w"), indent=1)
  shutil.rmtree(d)
  print("made", s["id"])
