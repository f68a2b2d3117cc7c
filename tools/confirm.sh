#!/bin/bash
# confirm.sh ID...: confirms seeded bugs in a scratch copy of /repo (build, stable tests, demo with and without)
V="$(cd "$(dirname "$0")/.." && pwd)"
S=$(mktemp -d /tmp/seedchk.XXXXXX)
cp -a /repo "$S/repo"
for id in "$@"; do
  d="$V/seeded/$id"
  cp -a "$d" "$S/demo"
  rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
  git -C "$S/repo" checkout -q -- .
  (cd "$S/repo" && timeout 300 bash "$S/demo/demo.sh" >"$S/clean.log" 2>&1); a=$?
  git -C "$S/repo" apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  (cd "$S/repo" && timeout 300 bash "$S/demo/demo.sh" >"$S/bug.log" 2>&1); b=$?
  if [ -z "$NOTEST" ]; then
    (cd "$S/repo" && sed '/^cd \/repo/,$d' /opt/vp/env.sh >"$S/env.sh" && . "$S/env.sh" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml="$S/junit.xml" tests >"$S/test.log" 2>&1
     /usr/bin/python3 /opt/vp/results.py "$S/out.json" "junit:$S/junit.xml" >/dev/null)
    t=$(python3 - "$S/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
need=set(b['stable']); print('broken:',sorted(need-set(o['passed']))[:5],'of',len(need))
P
)
  fi
  echo "$id: clean=$a patched=$b tests: $t"
  [ $a = 0 ] || tail -5 "$S/clean.log"
  [ $b != 0 ] && tail -2 "$S/bug.log"
  git -C "$S/repo" checkout -q -- .
  rm -rf "$S/demo"
done
rm -rf "$S"
