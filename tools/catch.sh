#!/bin/bash
# Applies planted bugs to /repo one after another, runs the check of the property (or those given in
# PROPS) against each, undoes it, and prints which checks report a violation.
#   tools/catch.sh [ID...]        PROPS="C01 C02" TIER=quick
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
  props=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in $props; do
    s=$(date +%s)
    out=$(./check.sh "$p" "${TIER:-quick}" 2>&1); rc=$?
    v=$(grep -c "^VIOLATION property=$p " <<< "$out")
    r=$(grep -o "replay=.*json" <<< "$out" | head -1 | cut -d= -f2)
    d=$([ -n "$r" ] && python3 -c "import json,sys;j=json.load(open('$r'));print(json.dumps(j.get('detail',''))[:150])")
    echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s $d"
  done
  git -C /repo checkout -q -- .
done
