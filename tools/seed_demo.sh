#!/bin/bash
# Builds demo.rs (beside this file) against the crates in the current directory and runs it:
# exit 0 when the library behaves as documented, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cavalier_contours = { path = "$repo/cavalier_contours" }
cavalier_contours_ffi = { path = "$repo/cavalier_contours_ffi" }
[workspace]
T
cp "$repo/Cargo.lock" "$work/Cargo.lock"
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.85.0} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 2
cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 2; }
timeout 120 "$work/target/debug/demo"
