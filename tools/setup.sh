#!/bin/sh
# checks build what they need from /repo's current tree; only verify the toolchain here
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
cargo --version && rustc --version && python3 --version
