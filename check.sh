#!/bin/bash
# check.sh <property id>: decide one property on /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/engine/run.py" "$@"
