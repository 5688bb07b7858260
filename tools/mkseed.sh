#!/bin/bash
# Development: (re)writes the specifications and demonstrations of planted bugs.
. "$(dirname "$0")/prepare.sh"
mkdir -p "$V/seeded"
( cd "$V/harness" && go run -modfile="$B/harness.mod" ./cmd/mkseed "$V/seeded" "$@" )
