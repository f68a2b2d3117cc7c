#!/bin/bash
# quick.sh [C..]: runs the quick tier of all (or the given) checks, two at a time, prints the last line of each
cd "$(dirname "$0")/.."
run() { ./run.sh "$1" >/tmp/quick.$1.log 2>&1; echo "$1 exit=$? $(tail -1 /tmp/quick.$1.log | cut -c1-160)"; rm -f "/tmp/quick.$1.log"; }
export -f run
for c in ${@:-$(ls checks | sed -n "s,^c\([0-9]*\)_.*,C\1,p")}; do echo $c; done | xargs -P2 -I{} bash -c 'run {}'
