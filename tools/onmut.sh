#!/bin/bash
# usage: onmut.sh PATCH ID...   runs the checks against a scratch copy of /repo's sources with PATCH applied
set -e
D=$(mktemp -d /tmp/mutXXXXXX); trap 'rm -rf "$D"' EXIT
mkdir $D/repo; cp -r /repo/src /repo/ruby $D/repo/ 2>/dev/null
cp -r /repo/test $D/repo/; (cd $D/repo && git init -q . && git apply "$1"); shift
for i in "$@"; do
  VERIF_REPO=$D/repo VERIF_BUILD=$D/build bash -c "cd /verif && ./check $i" > $D/out.$i 2>&1 && rc=0 || rc=$?
  echo "== $i exit $rc"; tail -6 $D/out.$i | cut -c1-400
done
