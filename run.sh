#!/bin/bash
# Builds the explorer from the committed sources and runs it: run.sh check C02 --tier quick | run.sh replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p build
out=$(cargo +1.99.1 build --release --offline --quiet --manifest-path engine/Cargo.toml --target-dir build/engine 2>&1) || { echo "$out" >&2; exit 2; }
exec build/engine/release/pamc "$@"
