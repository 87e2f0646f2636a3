#!/bin/bash
# Usage: check.sh PROPERTY [--replay FILE]
# Rebuilds the monitors against /repo's working tree and runs those of one property.
# VERIF_TIER=quick|thorough and VERIF_SEED come from the environment.
set -u
prop=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export HOME=${HOME:-/root}
bin=$(mktemp -d /tmp/gogeo-build-XXXXXX) || exit 2
trap 'rm -rf -- "$bin"' EXIT
race=
[ "$prop" = C05 ] && race=-race
( cd "$here/harness" && go build $race -o "$bin/monitor" . ) >&2 || { echo "the harness does not build against /repo" >&2; exit 2; }
if [ "${1:-}" = --replay ]; then
  "$bin/monitor" -verif "$here" -replay "$2"
else
  "$bin/monitor" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" "$@"
fi
