#!/bin/bash
# builds /repo, runs its tests and prints which of the stable tests do not pass
o=$(mktemp /tmp/outXXXX.json)
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 "$(dirname "$0")/stable.py" $o; rm -f $o
