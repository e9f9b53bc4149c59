#!/bin/bash
# try_bug.sh ID: in a scratch copy of /repo, demo on the unchanged tree (0), build+tests with the patch, demo with it (nonzero)
root=$(cd "$(dirname "$0")/.." && pwd); s=$root/seeded/$1
w=$(mktemp -d /tmp/try-XXXXXXXX)
cp -a /repo "$w/repo"
k=$(mktemp -d /tmp/tryk-XXXXXXXX); cp "$s"/* "$k"/; rm -f "$k"/*.diff "$k"/meta.json
cd "$w/repo"
bash "$k/demo.sh" >"$w/out0" 2>&1; echo "unchanged: $?"; tail -4 "$w/out0" | cut -c1-300
git apply "$s/patch.diff" || echo "DOES NOT APPLY"
bash "$k/demo.sh" >"$w/out1" 2>&1; echo "patched: $?"; tail -4 "$w/out1" | cut -c1-600
rm -rf "$w" "$k"
