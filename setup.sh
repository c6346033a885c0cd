#!/bin/bash
# Builds the explorers once (checks rebuild incrementally from /repo's working tree).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
for c in mc mc_serde mc_ui; do
  [ -d $c ] && { (cd $c && cargo build --release --offline) || exit 1; }
done
exit 0
