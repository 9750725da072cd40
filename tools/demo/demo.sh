#!/bin/bash
# builds the demonstration against /repo and runs it in a scratch folder
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo"
cd "$t/demo" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS=-Awarnings
timeout 280 cargo run --offline -q
