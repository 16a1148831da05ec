#!/bin/bash
# Builds the analyser from the committed (vendored) sources.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p .bin evidence
cd checker && GOFLAGS=-mod=vendor GOWORK=off go build -o ../.bin/checker .
