#!/bin/bash
# Applies each planted bug to /repo, runs its property's check (or those in CHECKS), undoes it.
# usage: matrix.sh [bug ...]   env: CHECKS="C01 C08" or ALL
cd /verif
export VERIF_SEED=1 VERIF_TIER=quick
bugs="$*"; [ -n "$bugs" ] || bugs=$(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for b in $bugs; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  cs=${CHECKS:-$p}; [ "$cs" = ALL ] && cs=$(seq -f 'C%02g' 1 15)
  out=""
  for c in $cs; do
    t=$(date +%s)
    ./check $c > /tmp/matrix.out 2>&1; rc=$?
    v=""; grep -q "^VIOLATION property=$c " /tmp/matrix.out && v=V
    out="$out $c:$rc$v($(( $(date +%s) - t ))s)"
    [ $rc = 0 ] || cp /tmp/matrix.out /tmp/matrix.$b.$c.out
  done
  git -C /repo checkout -q -- .
  echo "$b:$out"
done
