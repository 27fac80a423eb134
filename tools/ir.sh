#!/bin/bash
# builds the harness IR from /repo's current tree
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/ir
export RUSTFLAGS="--cap-lints allow -A warnings -C llvm-args=-inline-threshold=-100000 -C llvm-args=-inlinehint-threshold=-100000 -C no-vectorize-loops -C no-vectorize-slp"
cargo rustc --offline -q -- --emit=llvm-ir -C linker=/bin/true 2>&1 | head -${1:-60}
ls -la /verif/build/ir/debug/deps/harness-*.ll
