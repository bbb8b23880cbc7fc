#!/bin/bash
# bash check.sh <property>: rebuilds the monitors from /repo's working tree and runs one check.
# Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p evidence replays
[ "$1" = C27 ] && exec python3 c27.py run $2
log=$(mktemp)
if ! cargo build --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "build of the monitors failed"
    exit 2
fi
rm -f "$log"
[ -n "$2" ] && export VERIF_TIER=$2
./harness/target/debug/evmon "$1"
rc=$?
case $rc in
132 | 134 | 135 | 136 | 139)
    # the node runs in this process: it was aborted (stack overflow, abort) or hit by a fault
    f=$PWD/replays/$1-aborted.json
    echo "{\"property\": \"$1\", \"class\": \"aborted\", \"exit\": $rc, \"replay\": \"VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} bash /verif/check.sh $1\"}" >"$f"
    echo "the process with the node in it was aborted (exit $rc)"
    echo "VIOLATION property=$1 replay=$f"
    exit 1
    ;;
esac
exit $rc
