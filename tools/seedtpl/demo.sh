#!/bin/bash
# Builds main.rs against the crates of the repository in the working directory and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "${W:?}"' EXIT
mkdir -p "$W/src" "$W/tmp"
cp "$D/main.rs" "$W/src/main.rs"; cp "$D/Cargo.lock.txt" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "vh"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
graphannis = { path = "$R/graphannis" }
graphannis-core = { path = "$R/core" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tempfile = "3"
transient-btree-index = "0.5"
[profile.dev]
debug = false
T
cd "$W" || exit 99
CARGO_TARGET_DIR="$W/target" cargo build --offline -q 2> "$W/log" || { tail -30 "$W/log"; exit 98; }
TMPDIR="$W/tmp" timeout 120 "$W/target/debug/vh"
