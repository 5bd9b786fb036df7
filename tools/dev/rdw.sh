#!/bin/bash
# rdw.sh <slot> <roots> <out>: graphs of the edited copy in /tmp/w/<slot>
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
cd /tmp/w/$1/verif/harness; cp ../../repo/Cargo.lock Cargo.lock 2>/dev/null
touch src/lib.rs
VERIF_ROOTS=$2 VERIF_OUT=$3 RUSTC_WORKSPACE_WRAPPER=/verif/.build/driver/debug/tt-driver RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0" CARGO_TARGET_DIR=/tmp/w/$1/htarget cargo +nightly check --offline 2>&1 | grep -vE "^warning|^ *\||^ *=|^$|-->|^[0-9 ]+\|"
