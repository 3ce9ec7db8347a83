#!/bin/bash
# usage: check.sh <property id> [--replay FILE]
# Runs one bounded exhaustive check against the code in /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
SEED="${VERIF_SEED:-1}"
case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
export VERIF_SEED="$SEED" VERIF_TIER="${VERIF_TIER:-quick}"
# hash order is an input of the exploration, not an accident of the process
export PYTHONHASHSEED=$((SEED % 4294967295)) PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
cd "$HERE" && exec "$PY" -B -m mc "$@"
