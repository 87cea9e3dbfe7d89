#!/bin/bash
# run.sh <ID> [quick|thorough]: builds the check of a property from /repo's
# working tree and runs it. Exit 0: held; 1: VIOLATION; 2: inconclusive.
set -u
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export VERIF_DIR="$DIR" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$TIER"
unset USE_BIT_DECOMPOSITION_RANGE_CHECK
GO="$(command -v go1.23 || command -v go)"
BIN="$(mktemp -d /tmp/verif.XXXXXX)"
trap 'rm -rf "$BIN"' EXIT
cd "$DIR/harness" || exit 2
"$GO" build -o "$BIN/check" "./cmd/$(echo "$ID" | tr 'A-Z' 'a-z')" || { echo "BUILD FAILED"; exit 2; }
if [ "$ID" = C18 ]; then "$GO" build -race -o "$BIN/check-race" ./cmd/c18 || { echo "BUILD FAILED"; exit 2; }; fi
export VERIF_SCRATCH="$BIN"
# a generous watchdog: firing means inconclusive, never a verdict
LIM=840; [ "$TIER" = thorough ] && LIM=14000
GOGC=200 GOMEMLIMIT="${GOMEMLIMIT:-10GiB}" timeout -k 5 "$LIM" "$BIN/check" "$TIER"
RC=$?
exit $RC
