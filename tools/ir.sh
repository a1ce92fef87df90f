#!/bin/bash
# dev helper: build IR for feature $1
cd /verif/harness && CARGO_TARGET_DIR=/verif/build/t-$1 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" cargo rustc --lib --crate-type staticlib --release --features $1 -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -60
ls -la /verif/build/t-$1/release/deps/irh-*.ll
