#!/bin/bash
# run.sh <property id> [check options]: runs one check against /repo's working tree
D="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/vp-mpl}"
PY=/opt/venv/bin/python
[ "$id" = --setup ] || f=$(ls "$D"/checks/"$(echo "$id" | tr A-Z a-z)"_*.py)
export PYTHONPATH="$VERIF_REPO:$D/lib:$D/checks"
if [ "$id" = --setup ]; then
  cd "$D" && exec "$PY" -W ignore -c 'import sample, sample.widgets, vp; print("setup: ok", sample.__file__)'
fi
cd "$D" && exec "$PY" -W ignore "$f" "$@"
