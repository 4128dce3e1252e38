#!/bin/bash
# matrix.sh [NAME...]: runs each planted bug's property check against a scratch copy of /repo with it applied.
cd "$(dirname "$0")/.."
for n in ${@:-$(ls seeded)}; do
  id=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  w=$(mktemp -d /tmp/mx.XXXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" apply "$PWD/seeded/$n/patch.diff" || echo "APPLY FAILED $n"
  s=$SECONDS; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO=$w/repo timeout 900 python3 check.py $id >/tmp/mx.out 2>&1; rc=$?
  echo "$n $id rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/mx.out)"
  [ $rc = 1 ] || tail -5 /tmp/mx.out
  rm -rf "$w"
done
