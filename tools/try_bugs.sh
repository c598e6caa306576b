#!/bin/bash
# bash tools/try_bugs.sh [ID ...]: runs the quick check of each planted bug's property on a scratch copy of /repo with the bug applied
# (PYTHONPATH decides which tree the checks judge; check.sh itself always takes /repo)
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
W=$(mktemp -d /tmp/try-XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a pbt golden known_findings.json "$W/verif/"
export PYTHONPATH="$W/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick
for id in $ids; do
  p=${P:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  out=$(cd "$W/verif" && /opt/venv/bin/python -B -m pbt.main "$p" 2>&1); rc=$?
  git -C "$W/repo" checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -E '^suite|HARNESS' | head -1 | cut -c1-220) | $(echo "$out" | tail -1)"
done
rm -rf "$W"
