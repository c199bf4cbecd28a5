#!/bin/bash
# Builds the driver and the simulated standard library once, so that a missing
# tool shows here; warms Go's build cache. Leaves nothing in /verif.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go vet ./cmd/... ./prop/... ./run/... ./gen/... >/dev/null 2>&1
MIDISIM_CASES=8 MIDISIM_EVIDENCE=off bash "$here/check.sh" check C13
