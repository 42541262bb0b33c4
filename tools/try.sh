#!/bin/bash
# development helper: run the quick check of a planted bug's property on a scratch copy with the bug; usage: tools/try.sh [id ...]
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/trybug-$id
  rm -rf "$w"; mkdir -p "$w"; git -C /repo archive HEAD | tar x -C "$w"
  (cd "$w" && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id DOES NOT APPLY"
  s=$(date +%s)
  MC_REPO="$w" ./check.sh $p quick > /tmp/try-$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/try-$id.log) violations $(( $(date +%s)-s ))s: $(grep -A1 -m1 ^VIOLATION /tmp/try-$id.log | tail -1 | cut -c1-160)"
  rm -rf "$w"
done
