#!/bin/bash
# check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_DISABLE_JIT=1
export MPLBACKEND=Agg VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
unset PYTHONPATH PYTHONSTARTUP
# never read stale byte code of the tree under test
PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/vp-pyc-XXXXXX); export PYTHONPYCACHEPREFIX
export HYPOTHESIS_STORAGE_DIRECTORY=$PYTHONPYCACHEPREFIX/hyp
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python run.py "$1" --tier "$VERIF_TIER" "${@:3}"
