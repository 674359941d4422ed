#!/bin/bash
# builds the framework from the committed files; every check rebuilds what it needs itself
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
(cd symex && cargo build --offline --quiet --bin symex && cargo build --offline --quiet --bin symex-seq --features seq)
(cd kani && cargo build --offline --quiet)
target/debug/symex list > /dev/null
echo "setup done"
