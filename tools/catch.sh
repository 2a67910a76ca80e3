#!/bin/bash
# catch.sh [ids]: which planted changes the check of their property catches (on a scratch copy of /repo)
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; export VERIF_REPO="$w/repo"
git -C "$VERIF_REPO" checkout -q -- .
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$VERIF_REPO" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); timeout 900 python3 check.py $p > "$w/log" 2>&1; r=$?
  git -C "$VERIF_REPO" checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s) - s ))s $(grep -c ^VIOLATION "$w/log") $(tail -1 "$w/log" | cut -c1-160)"
done
