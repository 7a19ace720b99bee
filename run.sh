#!/bin/bash
# bash run.sh C01 quick|thorough      bash run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m dst.check "$@"
