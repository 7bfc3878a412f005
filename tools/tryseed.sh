#!/bin/bash
# tools/tryseed.sh NAME...: runs the quick check of its property against each planted bug, in private copies
cd "$(dirname "$0")/.."
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  t0=$(date +%s); tools/iso.sh "git -C /repo apply /verif/seeded/$n/patch.diff && timeout 900 ./run.sh $p quick" > /tmp/tryseed.$n 2>&1; rc=$?; t1=$(date +%s)
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/tryseed.$n; then echo "$n $p CAUGHT $((t1-t0))s"; else echo "$n $p MISSED rc=$rc $((t1-t0))s"; fi
done
