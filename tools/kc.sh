#!/bin/bash
# quickly compiles and runs a demo against /repo with a kept target directory
for id in "$@"; do
d=/tmp/kc; rm -rf $d/src; mkdir -p $d/src; cp /verif/seeded/$id/src/*.rs $d/src; cp /verif/seeded/$id/Cargo.lock $d; sed "s|@REPO@|/repo|" /verif/seeded/$id/Cargo.toml.in > $d/Cargo.toml
( cd $d && RUSTUP_TOOLCHAIN=stable cargo build --offline 2>&1 | grep -E "^error" -A9; time timeout 200 ./target/debug/demo; echo "$id rc=$?" )
done
