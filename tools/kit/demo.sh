#!/bin/bash
# Builds the library of the current directory against small stand-ins of its dependencies, then runs demo.rs.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo-XXXXXXXX)
trap 'rm -rf "$d"' EXIT
tar xzf "$here/kit.tar.gz" -C "$d"
sed -i "s#@REPO@#$repo#" "$d/shadow/nlu/Cargo.toml"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cd "$d/demo"
CARGO_TARGET_DIR="$d/target" cargo build --offline -q
mkdir "$d/work"
TMPDIR="$d/work" timeout 200 "$d/target/debug/demo" "$d/work"
