#!/bin/bash
# Builds the monitors from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cargo build --offline --manifest-path harness/Cargo.toml || exit 1
python3 c27.py build
