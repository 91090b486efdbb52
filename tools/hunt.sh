#!/bin/bash
# tools/hunt.sh ID...: run each planted bug's check against a scratch copy of /repo with the bug applied.
cd "$(dirname "$0")/.."
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/huntXXXXXX); chmod 755 $w
  git -C /repo archive HEAD | tar x -C $w
  (cd $w && git init -q . && git apply "$OLDPWD/seeded/$id/patch.diff") || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$w VERIF_OUT=$w/out ./check $prop 2>&1); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$prop ")
  echo "$id $prop rc=$rc viol=$v $(( $(date +%s)-s ))s  $(echo "$out" | grep -A1 '^violated' | tail -1 | cut -c1-160)"
  rm -rf "$w"
done
