#!/bin/bash
# detect.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(jq -r .property seeded/$d/meta.json)
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: DOES NOT APPLY"; continue; }
  s=$SECONDS
  out=$(timeout 900 python3 check.py "$p" --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((SECONDS-s))s $(grep -c '^VIOLATION' <<<"$out") $(grep '^VIOLATION' <<<"$out" | head -1 | cut -c1-150)"
  [ $rc = 1 ] || tail -3 <<<"$out"
done
