#!/bin/bash
# check.sh PROPERTY [TIER]: builds the analyzer from /verif/analyzer and decides one property on /repo's working tree.
# Exit 0: the property held on everything analysed. Exit 1: violation (with a VIOLATION line).
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export PATH=$PATH:/usr/local/go/bin
bin=$here/bin/analyzer
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/analyzer" && go build -o "$bin.$$" .) || { echo "the analyzer could not be built"; exit 2; }
mv -f "$bin.$$" "$bin"
[ "$prop" = build ] && exit 0
exec "$bin" -repo "${REPO:-/repo}" -property "$prop" -tier "$tier" -evidence "$here/evidence"
