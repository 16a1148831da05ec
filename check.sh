#!/bin/bash
# Usage: check.sh PROPERTY   Builds the checker from the committed sources and decides PROPERTY
# on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p .bin evidence
( flock 9; cd checker && GOFLAGS=-mod=vendor GOWORK=off go build -o ../.bin/checker . ) 9>.bin/lock || exit 2
exec ./.bin/checker -repo /repo -verif "$PWD" -tier "${VERIF_TIER:-quick}" "$@"
