#!/bin/bash
# runseeds.sh ID[:PROP]...: runs the checks on planted bugs (applied to /repo, undone straight afterwards)
cd /verif
for a in "$@"; do
  s=${a%%:*}; p=${a#*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || exit 1
  out=$(timeout 900 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(echo "$out" | tail -1 | cut -c1-200)"
  if [ $rc = 1 ]; then cp evidence/replay-$p.txt /tmp/replay-$s-$p.txt; fi
done
