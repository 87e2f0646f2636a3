#!/bin/bash
# Builds the monitors once, with and without the race detector, so that the checks find a warm build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export HOME=${HOME:-/root}
cd "$here/harness"
go version
go build -o /dev/null .
go build -race -o /dev/null .
