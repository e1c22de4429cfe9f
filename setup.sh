#!/bin/bash
# Builds the model checkers once (each check rebuilds what it needs in its own sandbox copy).
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
cd "$here/mc" && cargo build --offline --workspace
