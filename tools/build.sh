#!/bin/bash
# Builds the conformance harness from /repo's working tree.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTUP_AUTO_INSTALL=0 RUSTC_WRAPPER= RUSTFLAGS="--cfg verification"
export CARGO_TARGET_DIR=$here/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never
cd "$here/harness" && exec cargo build --offline --locked "$@"
