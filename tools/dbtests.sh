#!/bin/bash
# Runs the repository's own tests of the database (grovedb, merk, storage), which the official build
# cannot compile for want of RocksDB, over the simulated RocksDB. Developer's tool; no check uses it.
# usage: dbtests.sh [filter]
set -e
d=/tmp/gt; mkdir -p $d
rsync -a --delete --exclude /target --exclude .git --exclude /docs /repo/ $d/ 2>/dev/null || { (cd /repo && tar cf - --exclude ./target --exclude .git --exclude ./docs .) | tar xf - -C $d; }
cat >> $d/Cargo.toml <<'T'

[patch."https://github.com/QuantumExplorer/rust-rocksdb.git"]
rocksdb = { path = "/verif/sim/simrocks" }
[patch."https://github.com/dashpay/orchard.git"]
orchard = { path = "/verif/sim/simorchard" }
[patch.crates-io]
reqwest = { path = "/verif/sim/noreqwest" }
T
cp /verif/sim/harness/Cargo.lock $d/
cd $d && cargo test --offline --no-fail-fast -p grovedb -p grovedb-merk -p grovedb-storage --lib "$@" 2>&1 | grep -E "^test result|FAILED|panicked|^error" 
