#!/bin/bash
# Build everything the checks need, once; the checks rebuild incrementally.
cd "$(dirname "$0")" || exit 1
bash ./build.sh || exit 1
bash ./build.sh asan || exit 1
bash ./build.sh tools || exit 1
