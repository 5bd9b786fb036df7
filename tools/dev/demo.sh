#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
typetag = { path = "$repo" }
serde = { version = "1", features = ["derive", "rc"] }
serde_json = "1"
postcard = { version = "1", features = ["use-std"] }
erased-serde = "0.4"
[workspace]
T
cd "$w" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER=
cargo run --offline -q
