#!/bin/bash
# run.sh PROPERTY...: builds the checker from /verif/checker (vendored, no network) and runs it on /repo's current source.
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go*/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then PATH="$d:$PATH"; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off VERIF_DIR="$dir"
export HOME="${HOME:-/root}"
mkdir -p "$dir/bin" "$dir/evidence"
bin="$dir/bin/checker"
fail() { echo "$1"; for p in "${@:2}"; do echo "VIOLATION property=$p replay=-"; done; exit 1; }
(cd "$dir/checker" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || fail "the checker does not build" "$@"
cd "$dir" || exit 1
"$bin" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then fail "the checker exited with $rc" "$@"; fi
exit $rc
