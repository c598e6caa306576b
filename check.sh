#!/bin/bash
# bash check.sh <property> <quick|thorough>   -- runs one check from /verif against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -B -m pbt.main "$1"
