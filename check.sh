#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE                 run one recorded counterexample on the real code
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOTELEMETRY=off
export CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT
command -v go >/dev/null || export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/bin"
work=$(mktemp -d "${TMPDIR:-/tmp}/symgo.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
if [ "$1" = replay ]; then
  race=
  if grep -q '"property": "P26"' "$2"; then race=-race; export CGO_ENABLED=1 GORACE=halt_on_error=1; fi
  (cd "$here/harness" && go build $race -o "$work/replay" ./cmd/replay) || exit 2
  "$work/replay" "$2"
  exit $?
fi
tier=${2:-${VERIF_TIER:-quick}}
(cd "$here/engine" && go build -o "$work/symgo" .) || { echo "building the engine failed" >&2; exit 2; }
"$work/symgo" -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here"
exit $?
