#!/bin/bash
# builds the checker from the committed sources
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
export PATH="$PATH:/usr/local/go/bin" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
mkdir -p bin evidence
cd checker && go build -o ../bin/gopdfverif .
