#!/bin/bash
# usage: run.sh <property id>
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONHASHSEED=0 MPLCONFIGDIR="${TMPDIR:-/tmp}/vf_mpl_$$"
mkdir -p "$MPLCONFIGDIR" evidence
/opt/venv/bin/python harness/check.py "$1"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
