#!/bin/bash
# catch.sh [ID...]   run each planted bug's own check against it (development)
cd "$(dirname "$0")/.." || exit 1
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  out=$(tools/on_copy.sh "$PWD/seeded/$id/patch.diff" $p 2>&1)
  rc=$(echo "$out" | sed -n 's/^== .* exit //p')
  printf '%-42s %s exit=%s %ss  %s\n' $id $p "$rc" $(($(date +%s)-s)) "$(echo "$out" | grep -m1 "^$p: " | cut -c1-150)"
done
