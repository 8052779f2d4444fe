#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the scenario of main.rs
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$here"/demo/. "$t"/
mkdir "$t/app" && mv "$t"/Cargo.toml "$t"/Cargo.lock "$t"/main.rs "$t/app"/
sed -i "s#/repo/#$repo/#g" "$t/app/Cargo.toml"
cd "$t/app" && CARGO_TARGET_DIR="$t/target" TMPDIR="$t" cargo run -q --offline 2>"$t/log"
rc=$?
[ $rc -eq 0 ] || tail -20 "$t/log"
exit $rc
