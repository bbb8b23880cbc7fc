#!/bin/bash
# checkseed.sh ID...: in scratch copies under /tmp/cs: the demo passes without and fails with the patch, the stable
# tests pass with it, and the property's check (or those in $CHECKS) reports it.
root=$(cd "$(dirname "$0")/.." && pwd)
cs=/tmp/cs
mkdir -p $cs/verif $cs/kc/src
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
fresh() { rsync -a --delete --exclude target --exclude .git /repo/ $cs/repo/; find $cs/repo/src -name "*.rs" -exec touch {} +; }
demo() {
    rm -rf "$cs/kc/src"; mkdir -p $cs/kc/src
    cp $root/seeded/$1/src/*.rs $cs/kc/src; cp $root/seeded/$1/Cargo.lock $cs/kc
    sed "s|@REPO@|$cs/repo|" $root/seeded/$1/Cargo.toml.in > $cs/kc/Cargo.toml
    ( cd $cs/kc && cargo build --offline >$cs/d.build 2>&1 ) || { echo "build failed"; return 9; }
    timeout -k 5 200 $cs/kc/target/debug/demo >$cs/d.out 2>&1
}
rsync -a --exclude target --exclude seeded --exclude .git $root/ $cs/verif/
for id in "$@"; do
    fresh
    demo $id; r0=$?; m0=$(tail -1 $cs/d.out)
    ( cd $cs/repo && patch -p1 -s < $root/seeded/$id/patch.diff ) || { echo "$id: DOES NOT APPLY"; continue; }
    demo $id; r1=$?; m1=$(tail -1 $cs/d.out)
    sed "s|/repo|$cs/repo|g" /opt/vp/test.sh > $cs/test.sh
    bash $cs/test.sh $cs/t.json >$cs/tl 2>&1
    tests=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('$cs/t.json'))['passed'])
print([x for x in b if x not in p] or 'ok')")
    echo "$id: demo clean=$r0 ($m0) patched=$r1 ($m1) tests: $tests"
    for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}; do
        VERIF_SEED=${SEED:-1} bash $cs/verif/check.sh $c >$cs/c.out 2>&1; rc=$?
        echo "   check $c: rc=$rc $(grep -m1 '  violated' $cs/c.out | cut -c1-220)"
    done
done
