#!/bin/bash
# builds every harness of one side: build.sh sym|nat
cd "$(dirname "$0")"
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline --release --manifest-path harness/$1/Cargo.toml --target-dir build/target-$1 2>&1 | grep -E "^error" -A9 | head -60
