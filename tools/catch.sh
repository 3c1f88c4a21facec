#!/bin/bash
# catch.sh [ID...]: apply each planted bug to /repo, run its property's check (or CHECKS="C01 C02"), undo it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    t0=$(date +%s)
    timeout 900 bash check.sh $c quick > /tmp/catch.out 2>&1; rc=$?
    v=$(grep -a -m1 "^VIOLATION property=$c" /tmp/catch.out)
    echo "$id property=$p check=$c exit=$rc $(( $(date +%s) - t0 ))s ${v:+CAUGHT}${v:-MISSED}" | cut -c1-200
  done
  git -C /repo checkout -q -- .
done
