#!/bin/bash
# tryseeds.sh [ID...]: runs the check of each seeded bug against a copy of /repo with the bug.
here=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(ls "$here/seeded")}
for s in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$s/meta.json'))['property'])")
  c=$(mktemp -d /var/tmp/seed.XXXXXX)
  cp -a /repo "$c/repo"
  git -C "$c/repo" apply "$here/seeded/$s/patch.diff" || echo "does not apply: $s"
  t0=$(date +%s)
  VERIF_REPO="$c/repo" VERIF_EV="$c/ev" bash "$here/check.sh" "$p" > "$c/log" 2>&1; rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c VIOLATION "$c/log") $(grep 'violated:' "$c/log" | head -3 | tr '\n' ' ' | cut -c1-150)"
  rm -rf "$c"
done
