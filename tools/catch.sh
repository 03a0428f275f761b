#!/bin/bash
# catch.sh [ID ...]: applies each seeded change to the repository (VERIF_REPO, default /repo), runs the quick check of its property, undoes it; prints what was caught
cd "$(dirname "$0")/.." || exit 2
R=${VERIF_REPO:-/repo}
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$R" apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  timeout 900 ./check.sh $p > /tmp/catch.out 2>&1; rc=$?
  git -C "$R" checkout -- .
  echo "$d $p rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/catch.out) $(grep -m2 'sig=' /tmp/catch.out | tr '\n' ' ' | cut -c1-150)"
done
