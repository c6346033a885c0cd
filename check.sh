#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--only <space> <index>]
# Rebuilds the explorer against /repo's working tree and explores one property.
# exit 0: held on everything explored, 1: violation (VIOLATION line), 3: could not build/run.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD" RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
prop=$1
shift
crate=mc
case $prop in P27) crate=mc_serde ;; P28 | P29) crate=mc_ui ;; esac
log=$(mktemp)
if ! (cd $crate && RUSTFLAGS=-Awarnings cargo build --release --offline >"$log" 2>&1); then
  cat "$log"
  rm -f "$log"
  echo "BUILD-FAILED: the explorer does not build against /repo"
  exit 3
fi
rm -f "$log"
exec ./$crate/target/release/$crate "$prop" "${@:-quick}"
