#!/bin/bash
# bash replay.sh <replay file>: runs one saved case; exit 1 if it still breaks the property
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B -m pbt.replay "$f"
