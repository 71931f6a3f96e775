#!/bin/sh
# Builds the checker from the committed sources (offline).
set -e
d=$(cd "$(dirname "$0")" && pwd)
cd "$d/engine"
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on CGO_ENABLED=0
mkdir -p "$d/bin" "$d/evidence"
go build -o "$d/bin/vf" ./cmd/vf
