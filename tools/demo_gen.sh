#!/bin/bash
# Binds the crate demo.rs beside this script to C++, builds main.cc with it and runs the result.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$repo/target"
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cargo build --offline -q --locked --manifest-path "$repo/Cargo.toml" -p cc_bindings_from_rs || exit 3
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib:$LD_LIBRARY_PATH"
mkdir "$t/crubit" && echo "// Nothing of it is needed here." > "$t/crubit/core.h"
R="rustc --crate-type rlib -Awarnings -L $t"
$R --edition 2024 --crate-name bridge_rust "$repo/support/crubit_bridge_rust/src/bridge.rs" -o "$t/libbridge_rust.rlib" || exit 3
$R --edition 2024 --crate-name ffi_11 "$repo/support/ffi_11/src/lib.rs" -o "$t/libffi_11.rlib" || exit 3
$R --edition 2021 --crate-name demo "$here/demo.rs" -o "$t/libdemo.rlib" || exit 3
"$repo/target/debug/cc_bindings_from_rs" --h-out="$t/demo.h" --rs-out="$t/demo_impl.rs" \
    --crubit-support-path-format='<support/{header}>' --default-features=supported --source-crate-name=demo \
    --crate-header=core=crubit/core.h --crate-namespace=core=rs::core \
    --extern "demo=$t/libdemo.rlib" || exit 4
rustc --crate-type staticlib -Awarnings -L "$t" --edition 2024 --crate-name demo_impl "$t/demo_impl.rs" -o "$t/libdemo_impl.a" \
    --extern "demo=$t/libdemo.rlib" --extern "bridge_rust=$t/libbridge_rust.rlib" --extern "ffi_11=$t/libffi_11.rlib" || exit 5
clang++ -std=c++20 -w -I "$repo" -I "$t" "$here/main.cc" "$repo/support/internal/check_no_mutable_aliasing.cc" "$t/libdemo_impl.a" \
    -o "$t/demo" -lpthread -ldl -lm || exit 6
timeout 100 "$t/demo"
