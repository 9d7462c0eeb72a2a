#!/bin/bash
# tryseeds.sh [id...]: runs the check of each planted bug's property on a scratch copy with the bug
here="$(cd "$(dirname "$0")/.." && pwd)"; cd "$here"
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf -- /tmp/sd/try; mkdir -p /tmp/sd; cp -a /repo /tmp/sd/try
  git -C /tmp/sd/try apply "$here/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  t0=$(date +%s); out=$(VERIF_REPO=/tmp/sd/try ./check.sh $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION <<<"$out")"
  [ -n "$V" ] && echo "$out"
done
rm -rf -- /tmp/sd/try
