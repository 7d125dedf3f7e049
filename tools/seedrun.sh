#!/bin/bash
# seedrun.sh OUT [seed...]: each planted bug applied to /repo, its property's quick check run, and undone.
out=$1; shift
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s $p NOAPPLY" >>"$out"; continue; }
  t=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py "$p" >/tmp/seedrun.log 2>&1
  c=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$c $(( $(date +%s) - t ))s $(grep -c '^VIOLATION property='$p /tmp/seedrun.log) | $(grep -m1 -A1 '^VIOLATION' /tmp/seedrun.log | tr '\n' ' ' | cut -c1-260)" >>"$out"
done
