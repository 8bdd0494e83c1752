#!/bin/bash
# Builds the harness from the committed files and /repo's working tree; needs no network.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
mkdir -p evidence work
(cd harness && cargo build --offline --locked) && (cd webapp && cargo build --offline --locked)
