#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
export MPLBACKEND=agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 env PYTHONPATH="$PWD:$here" /opt/venv/bin/python "$here/demo.py"
