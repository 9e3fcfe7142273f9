#!/bin/bash
# usage: bash run_check.sh <property id> [quick|thorough]      run a check
#        bash run_check.sh replay <replay file>                re-run one saved case
# Runs against the working tree of /repo; every scratch file lives in one
# temporary directory that is removed again.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_WORK="$(mktemp -d /tmp/verif_check.XXXXXX)"
trap 'rm -rf "$VERIF_WORK"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
# a fresh numba cache: no kernel compiled from another tree is ever used
export NUMBA_CACHE_DIR="$VERIF_WORK/numba" MPLCONFIGDIR="$VERIF_WORK/mpl"
export HYPOTHESIS_NO_PLUGINS=1 HYPOTHESIS_STORAGE_DIRECTORY="$VERIF_WORK/hyp"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$HERE"
export COLUMNS=200
unset NUMBA_DISABLE_JIT
mkdir -p "$MPLCONFIGDIR" "$NUMBA_CACHE_DIR"
cd "$HERE"
/opt/venv/bin/python -X faulthandler -m vkit.main "$@"
