#!/bin/bash
# Run in the repository: builds a scratch program against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR=$d/target
mkdir -p "$d/src"
cp "$here"/src/*.rs "$d/src/" && cp "$here/Cargo.lock" "$d/" || exit 9
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$d/Cargo.toml" || exit 9
if ! cargo build --offline --manifest-path "$d/Cargo.toml" > "$d/log" 2>&1; then
    cat "$d/log"
    exit 9
fi
timeout -k 5 200 "$d/target/debug/demo"
