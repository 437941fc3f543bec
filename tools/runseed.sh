#!/bin/bash
# usage: runseed.sh ID...  run the property's check against each planted change, in a scratch copy
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; w=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo/. "$w/"; git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  o=$(cd "$V" && VERIF_REPO=$w timeout 900 bash check.sh "$p" 2>&1); rc=$?
  echo "$id $p exit=$rc $(echo "$o" | grep -E '^(VIOLATION|OK)' | head -1 | cut -c1-120)"
  rm -rf "$w"
done
