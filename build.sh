#!/bin/bash
# Build against the current working tree of /repo (offline, incremental).
#   build.sh        the harness
#   build.sh asan   the reader of damaged files, with AddressSanitizer in Rust and C
#   build.sh tools  the command line tools of the repository
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CC CFLAGS
what=${1:-harness}
if [ "$what" = asan ]; then
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$V/target/asan"
    export RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" CC=clang LZMA_API_STATIC=1 CFLAGS="-fsanitize=address -fno-omit-frame-pointer -g1"
    args="--target x86_64-unknown-linux-gnu"
    dir="$V/target/asan/x86_64-unknown-linux-gnu/debug"
    hostdir="$V/target/asan/debug"
    cd "$V/asan" || exit 2
elif [ "$what" = tools ]; then
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$V/target/tools"
    args="-p oxyroot-ls -p oxyroot-dump"
    dir="$V/target/tools/debug"
    hostdir=$dir
    cd /repo || exit 2
else
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$V/target"
    args=
    dir="$V/target/debug"
    hostdir=$dir
    cd "$V/harness" || exit 2
fi
mkdir -p "$CARGO_TARGET_DIR"
# cargo trusts modification times; a content hash decides here
stamp="$CARGO_TARGET_DIR/repo.sha256"
sum=$(cd /repo && find oxyroot oxyroot_derive oxyroot-ls oxyroot-dump -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.txt' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -rf "$dir"/.fingerprint/oxyroot-* "$dir"/.fingerprint/oxyroot_derive-* "$hostdir"/.fingerprint/oxyroot_derive-*
    rm -f "$stamp"
fi
# shellcheck disable=SC2086
cargo build --offline --locked -q $args 2>"$CARGO_TARGET_DIR/build.log" || { grep -A12 "^error" "$CARGO_TARGET_DIR/build.log" | head -60 >&2; exit 2; }
echo "$sum" >"$stamp"
