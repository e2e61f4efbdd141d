#!/bin/bash
# check.sh CXX: run the check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
if [ "$1" = --setup ]; then exec "$PY" -B -c "import sys; sys.path.insert(0, \"harness\"); import core; core.load_repo(); import world; print(\"imports ok\")"; fi
exec "$PY" -B harness/run.py "$@"
