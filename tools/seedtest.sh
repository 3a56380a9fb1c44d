#!/bin/bash
# seedtest.sh <id>...: confirm planted bugs in a scratch copy of /repo: the patch applies,
# builds, passes the stable tests, the demonstration passes without and fails with it.
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedwork
if [ ! -d $W/repo ] || [ "$(git -C $W/repo rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
    rm -rf /tmp/seedwork; mkdir -p $W; cp -a /repo $W/repo
fi
rc=0
run() { # run the tests, list missing ones
    cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$W/log 2>&1
    python3 /opt/vp/results.py $W/out.json cargo:$W/log >/dev/null
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedwork/out.json'))
def names(x,k):
    v=x.get(k,[])
    return set(v if isinstance(v,list) else v.keys())
base=names(b,'stable') or names(b,'passed') or names(b,'pass')
got=names(o,'passed') or names(o,'pass')
m=sorted(base-got)
print("baseline",len(base),"missing",m[:5])
raise SystemExit(1 if m or not base else 0)
P
}
for id in "$@"; do
    S=$V/seeded/$id
    cd $W/repo && git checkout -q -- . || exit 2
    cargo test --workspace --no-run --offline >$W/log 2>&1 || { echo "$id: base does not build"; rc=1; continue; }
    D=$(mktemp -d /tmp/demo.XXXX); cp $S/* $D/; rm -f $D/*.diff $D/meta.json
    bash $D/demo.sh >$W/demo.base 2>&1; a=$?
    git apply $S/patch.diff || { echo "$id: patch does not apply"; rc=1; continue; }
    if ! cargo test --workspace --no-run --offline >$W/log 2>&1; then echo "$id: does not build"; grep -A5 '^error' $W/log | head -20; rc=1; git checkout -q -- .; continue; fi
    t=$(run); tr=$?
    bash $D/demo.sh >$W/demo.bug 2>&1; b=$?
    git checkout -q -- .
    rm -rf "$D"
    if [ $a = 0 ] && [ $b != 0 ] && [ $tr = 0 ]; then echo "$id: OK (demo base=$a bug=$b) $t"; else echo "$id: BAD demo base=$a bug=$b tests: $t"; tail -n 5 $W/demo.base; tail -n 5 $W/demo.bug; rc=1; fi
done
exit $rc
