#!/bin/bash
# try.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property,
# and undoes it. Prints caught or MISSED per bug.
cd /verif
for id in "${@:-}"; do [ -n "$id" ] || { set -- $(ls seeded); break; }; done
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then echo "$id: caught by $p"; else echo "$id: MISSED by $p (exit $rc)"; tail -3 <<<"$out"; fi
done
