#!/bin/bash
# usage: check.sh <property> [--replay FILE] [--count N]
# Runs the simulation check of one property against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/qs-sim.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${QS_SIM_HASHSEED:-0} MPLBACKEND=Agg
export NUMBA_CACHE_DIR=$scratch/numba PYTHONPYCACHEPREFIX=$scratch/pyc TMPDIR=$scratch
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH=$here:${QS_SIM_REPO:-/repo}
unset QS_CACHE_TDHO
case "$1" in C07|C08|C09|C10|C11|C12|C13|C14|C15) export NUMBA_DISABLE_JIT=1;; esac
export QS_SIM_CWD=$PWD
cd "$scratch" || exit 2
/opt/venv/bin/python -W ignore "$here/sim/main.py" "$@"
rc=$?
exit $rc
