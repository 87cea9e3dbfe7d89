#!/bin/bash
# Warms the build cache and runs the self-tests of the framework's reference.
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
GO="$(command -v go1.23 || command -v go)"
cd "$DIR/harness" && "$GO" build -o /dev/null ./... && "$GO" vet ./eng ./ref ./chk >/dev/null 2>&1
"$GO" test ./ref ./adapt || true
exit 0
