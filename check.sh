#!/bin/bash
# check.sh PROPERTY [-tier quick|thorough]: decides one property on /repo's working tree.
# check.sh -build: builds the engine only.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
export HOME="${HOME:-/root}"
export GOSYM_VERIF="$PWD" GOSYM_REPO="${GOSYM_REPO:-/repo}"
mkdir -p bin evidence
(cd gosym && go build -buildvcs=false -o ../bin/gosym .) || { echo "the engine does not build" >&2; exit 2; }
[ "$1" = -build ] && exit 0
exec bin/gosym check "$@"
