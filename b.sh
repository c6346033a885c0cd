#!/bin/bash
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
cd /verif/mc && RUSTFLAGS=-Awarnings cargo build --release --offline 2>&1 | grep -E "^error|-->|cannot|expected" | head -40
cd /verif
for p in "$@"; do MC_TIMES=1 MC_PRINT=1 MC_MAX_FAIL=${MF:-400} ./mc/target/release/mc $p $TIER > /tmp/$p.out 2>/tmp/$p.err; rc=$?; cat /tmp/$p.err | head -20;  tail -1 /tmp/$p.out; echo rc=$rc; grep FAIL /tmp/$p.out | awk '{print $2,$4}' | sort | uniq -c; done
