#!/bin/bash
# builds the simulator (offline, from the committed sources and /repo's working tree)
cd "$(dirname "$0")/../sim/harness" || exit 2
out=$(cargo build --offline --locked --quiet 2>&1) || { echo "$out" | tail -60 >&2; exit 2; }
exit 0
