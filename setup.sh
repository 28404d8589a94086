#!/bin/bash
# builds everything once, so that a broken toolchain shows up before the checks
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOTELEMETRY=off CGO_ENABLED=0
work=$(mktemp -d "${TMPDIR:-/tmp}/symgo.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
set -e
cd "$here/engine" && go build -o "$work/symgo" .
cd "$here/harness" && go build -o "$work/replay" ./cmd/replay
for s in z3-new z3 cvc5; do command -v $s >/dev/null && echo "$s: found" || echo "$s: missing"; done
