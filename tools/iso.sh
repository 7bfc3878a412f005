#!/bin/bash
# [SRC=checkout of /verif] tools/iso.sh CMD...: runs CMD with private copies of /repo and /verif mounted over them
d=$(mktemp -d /tmp/iso.XXXX)
cp -a /repo $d/repo; mkdir $d/verif; (cd "${SRC:-/verif}" && tar cf - --exclude=./evidence .) | tar xf - -C $d/verif; mkdir $d/verif/evidence
unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && $*"
rc=$?
rm -rf "$d"
exit $rc
