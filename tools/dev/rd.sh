#!/bin/bash
# usage: rd.sh roots out
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
cd /verif/harness; cp /repo/Cargo.lock Cargo.lock 2>/dev/null
touch src/lib.rs
VERIF_ROOTS=$1 VERIF_OUT=$2 RUSTC_WORKSPACE_WRAPPER=/verif/.build/driver/debug/tt-driver RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0" CARGO_TARGET_DIR=/tmp/htarget cargo +nightly check --offline 2>&1 | grep -vE "^warning|^ *\||^ *=|^$|-->|^[0-9 ]+\|"
