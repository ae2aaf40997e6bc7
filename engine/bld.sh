#!/bin/bash
# debug build of the harness crate
cd /verif/harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp" cargo build --offline 2>&1 | grep -E '^(error|warning: unu)' -A9| tail -60
