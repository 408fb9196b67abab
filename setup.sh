#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself anyway.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$HERE/harness" && go build -o /dev/null ./... && go build -race -o /dev/null ./cmd/raceprops && mkdir -p "$HERE/evidence"
