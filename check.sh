#!/bin/bash
# check.sh PROPERTY: decide one property from the current source of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${HOVER_REPO:-/repo}"
scratch="${HOVERCHECK_SCRATCH:-${TMPDIR:-/tmp}/hovercheck}"
mkdir -p "$scratch" "$here/evidence"
export HOVERCHECK_SCRATCH="$scratch"
export GOCACHE="$scratch/gocache" GOFLAGS=-mod=vendor GOWORK=off GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0
bin="$scratch/hovercheck.$$"
if ! (cd "$here/checker" && go build -o "$bin" .); then
	echo "cannot build the checker" >&2
	exit 2
fi
unset GOFLAGS
"$bin" -repo "$repo" -verif "$here" -prop "$1"
code=$?
rm -f "$bin"
exit $code
