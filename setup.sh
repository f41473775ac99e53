#!/bin/bash
# setup.sh: builds the checker once; run.sh rebuilds it (from the build cache) before every check.
cd "$(dirname "$0")" || exit 1
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go*/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then PATH="$d:$PATH"; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off HOME="${HOME:-/root}"
mkdir -p bin evidence
cd checker && GOFLAGS=-mod=vendor go build -o ../bin/checker .
