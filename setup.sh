#!/bin/bash
# Warms the build cache of the checker; every check also builds it on its own.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
scratch="${HOVERCHECK_SCRATCH:-${TMPDIR:-/tmp}/hovercheck}"
mkdir -p "$scratch"
cd "$here/checker"
GOCACHE="$scratch/gocache" GOFLAGS=-mod=vendor GOWORK=off GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 go build -o /dev/null .
