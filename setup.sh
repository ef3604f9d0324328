#!/bin/bash
# Builds the harness once, so that later builds find a warm cache. Every check
# builds again from /repo's working tree; nothing made here is needed by them.
set -e
cd "$(dirname "$0")/harness"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=readonly -buildvcs=false" GOSUMDB=off GOWORK=off
out=$(mktemp -d)
go build -o "$out/harness" .
rm -r "$out"
