#!/bin/bash
# tools/reverttest.sh ID FILE...: does check ID report the original version of each repaired file?
id=$1; shift
for f in "$@"; do
  git -C /repo show b7be6b6:$f > /repo/$f
  if git -C /repo diff --quiet; then echo "SAME $f"; else
  ./run.sh $id quick > /tmp/rev.out 2>&1; echo "$f rc=$? $(grep -c VIOLATION /tmp/rev.out)"; grep -m3 -i "VIOLATION" /tmp/rev.out | cut -c1-200; fi
  git -C /repo checkout -q -- .
done
