#!/bin/bash
# check.sh <property> quick|thorough [--only group#index]
cd "$(dirname "$0")" || exit 2
bash ./build.sh || { echo "the harness does not build against /repo"; exit 2; }
if [ "${1:-}" = C17 ]; then
    bash ./build.sh asan || { echo "the reader of damaged files does not build against /repo"; exit 2; }
fi
if [ "${1:-}" = C19 ]; then
    bash ./build.sh tools || { echo "the command line tools do not build"; exit 2; }
fi
export VH_VERIF="$PWD" VH_REPO=/repo
exec ./target/debug/vharness "$@"
