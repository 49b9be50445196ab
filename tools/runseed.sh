#!/bin/bash
# runseed.sh ID [PROPERTY..]: runs the checks on /repo with planted bug ID applied, then undoes it
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
p=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$V/seeded/$id/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for c in $p; do
  s=$(date +%s); VERIF_TIER=quick VERIF_SEED=1 timeout 900 bash "$V/check.sh" $c >/tmp/runseed.out 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/runseed.out | cut -c1-160)"
done
