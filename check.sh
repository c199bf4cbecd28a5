#!/bin/bash
# check.sh check ID     decides one property (VERIF_SEED, VERIF_TIER=quick|thorough)
# check.sh replay FILE  re-executes a replay file
# Builds the driver from /verif/sim into a scratch folder; the driver builds
# the simulated binaries from /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
if [ "${1:-}" = replay ] && [ -n "${2:-}" ]; then set -- replay "$(realpath "$2")"; fi
tmp="$(mktemp -d)" || exit 2
trap 'kill "${pid:-0}" 2>/dev/null; wait 2>/dev/null; rm -rf "$tmp"; exit 2' INT TERM
(cd "$here/sim" && go build -o "$tmp/simctl" ./cmd/simctl) || { rm -rf "$tmp"; exit 2; }
MIDISIM_VERIF="$here" TMPDIR="$tmp" "$tmp/simctl" "$@" &
pid=$!
wait "$pid"; code=$?
rm -rf "$tmp"
exit "$code"
