#!/bin/bash
cd "$(dirname "$0")" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$PWD/../build/engine" cargo build --release --offline --locked 2>&1
