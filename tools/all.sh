#!/bin/bash
# all.sh [TIER [PROPERTY...]]: run the checks on the current tree, one after another
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
[ $# -gt 0 ] || set -- $(seq -f C%02g 1 25)
for p; do
  s=$(date +%s); out=$(./check.sh $p $tier 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(tail -1 <<< "$out" | cut -c1-200)"
done
