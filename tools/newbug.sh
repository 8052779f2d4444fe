#!/bin/bash
# newbug.sh ID: scaffold /verif/seeded/ID (demo project with its own stubs); edit meta.json, demo/main.rs, then capture the patch
set -e
d=/verif/seeded/$1; mkdir -p $d/demo
cp /verif/tools/demo/demo.sh $d/demo.sh; chmod +x $d/demo.sh
cp /verif/tools/demo/full.toml $d/demo/Cargo.toml
sed 's/name = "gsim"/name = "demo"/' /verif/sim/harness/Cargo.lock > $d/demo/Cargo.lock
for s in simrocks simorchard noreqwest; do mkdir -p $d/demo/$s; (cd /verif/sim/$s && tar c --exclude target --exclude Cargo.lock . ) | tar x -C $d/demo/$s; done
