#!/bin/bash
# usage: check.sh PROPERTY  - runs one static check over /repo's current working tree
cd "$(dirname "$0")" || exit 1
V=$PWD
id=$1
. /opt/vp/env.sh 2>/dev/null
export PATH="$PATH:/usr/local/go/bin" HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
mkdir -p "$V/evidence" "$V/bin"
fail() { echo "$2" >"$V/evidence/$id.report.txt"; echo "VIOLATION property=$id replay=$V/evidence/$id.report.txt"; echo "  $2"; exit 1; }
if [ ! -x "$V/bin/gopdfverif" ] || [ -n "$(find "$V/checker" -name '*.go' -newer "$V/bin/gopdfverif" -print -quit)" ]; then
  (cd "$V/checker" && go build -o "$V/bin/gopdfverif" .) >"$V/evidence/build.log" 2>&1 || fail build "the checker does not build: $(head -c 300 "$V/evidence/build.log")"
fi
ulimit -v 12000000 2>/dev/null
export GOMEMLIMIT=6GiB
timeout 850 "$V/bin/gopdfverif" -property "$id" -repo /repo -verif "$V"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || fail run "the analysis did not finish (exit $rc): nothing was decided"
exit $rc
