#!/bin/bash
# catch.sh [id ...]: run the check of each planted bug's property against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.."
ids="${*:-$(ls seeded)}"
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/catch.$$; rm -rf "$w"; git clone -q /repo "$w" || exit 1
  git -C "$w" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  t0=$(date +%s)
  out=$(VP_REPO="$w" ./check.sh "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -v '^KNOWN' | head -1 | cut -c1-160)"
  rm -rf "$w"
done
