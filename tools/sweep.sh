#!/bin/bash
# sweep.sh [ID...]: runs the property's quick check on every planted change (all
# by default) and prints which family reports it first.  Applies patches in
# /repo, so run it in a mount namespace with a private copy bound over /repo.
V=/verif
[ $# -gt 0 ] || set -- $(ls $V/seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id DOES-NOT-APPLY"; continue; }
  s=$SECONDS
  out=$(cd $V && VERIF_FIRST=1 timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  f=$(grep -a -m1 '^FIRST' <<<"$out" | sed 's,^FIRST ,,; s,: .*,,')
  if [ $rc = 1 ]; then echo "$id ${f:-?} $((SECONDS-s))s"; else echo "$id MISSED rc=$rc $((SECONDS-s))s"; fi
done
