#!/bin/bash
# Builds the crate beside this script against /repo and runs it: exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp -r "$here/crate" "$t/crate" || exit 1
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q --manifest-path "$t/crate/Cargo.toml" || exit 3
timeout 200 "$t/target/debug/demo"
