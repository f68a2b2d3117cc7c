#!/bin/bash
# seedtest.sh ID [CHECK]: runs the check of the seeded bug's property (or CHECK) against a scratch copy with the bug
V="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; c="${2:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")}"
S=$(mktemp -d /tmp/seedrun.XXXXXX)
cp -a /repo "$S/repo"; mkdir "$S/verif"; cp -a "$V"/{run.sh,lib,checks,known_findings.json} "$S/verif/"
git -C "$S/repo" apply "$V/seeded/$id/patch.diff" || exit 3
VERIF_REPO="$S/repo" timeout 900 "$S/verif/run.sh" "$c" --tier quick >"$S/log" 2>&1; r=$?
echo "$id $c exit=$r"; grep -v "^\[C" "$S/log" | tail -${TAIL:-4} | cut -c1-400
rm -rf "$S"
