#!/bin/bash
# usage: seedrun.sh [id...]: applies each planted change to /repo, runs the check of its property, undoes the change
R=${VERIF_REPO:-/repo}; export VERIF_REPO=$R; cd /verif; [ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $R apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t0=$(date +%s); timeout 900 python3-vt check.py $p $OPT > /tmp/seed-$s.log 2>&1; r=$?
  git -C $R checkout -- .
  echo "$s $r $(( $(date +%s) - t0 ))s $(grep -m1 '^VIOLATION' /tmp/seed-$s.log)"
done
