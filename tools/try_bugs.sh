#!/bin/bash
# try_bugs.sh OUTDIR ID...: apply each seeded change to /repo in turn, run the check of its property, undo.
out=$1; shift; mkdir -p $out
for b in "$@"; do
  d=/verif/seeded/$b
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$b APPLY"; continue; }
  t=$(date +%s)
  timeout 900 python3 /verif/engine/check.py $p --tier quick > $out/$b.log 2>&1
  rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' $out/$b.log) $(grep '^VIOLATION' $out/$b.log | head -1)" | tee -a $out/summary
done
