#!/bin/bash
# check.sh <property>: build the simulator against /repo's working tree and run one check.
cd "$(dirname "$0")/.." || exit 2
export GSIM_ROOT="$PWD"
bash tools/build.sh || exit 2
exec ./sim/harness/target/debug/gsim check "$1"
