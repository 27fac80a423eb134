#!/bin/bash
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/native
export RUSTFLAGS="--cap-lints allow -A warnings"
cargo build --offline -q --features native 2>&1 | head -60
