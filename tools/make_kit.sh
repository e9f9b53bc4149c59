#!/bin/bash
# make_kit.sh SEEDED_DIR...: puts demo.sh and kit.tar.gz beside the demonstration of planted bugs.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/kit-XXXXXXXX)
cp -a "$root/stubs" "$t/stubs"
mkdir -p "$t/shadow/nlu"
sed -e '/^std *=/d' -e 's#/repo/src#@REPO@/src#' "$root/shadow/nlu/Cargo.toml" > "$t/shadow/nlu/Cargo.toml"
cp -a "$root/tools/kit/demo" "$t/demo"
cp "$root/mc/src/spec.rs" "$root/mc/src/worlds.rs" "$t/demo/src/"
find "$t" \( -name target -o -name Cargo.lock \) -prune -exec rm -rf {} +
tar --sort=name --mtime='2020-01-01' --owner=0 --group=0 -C "$t" -cf - stubs shadow demo | gzip -n > "$t/kit.tar.gz"
for s in "$@"; do cp "$t/kit.tar.gz" "$root/tools/kit/demo.sh" "$s/"; chmod +x "$s/demo.sh"; done
rm -rf "$t"
