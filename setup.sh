#!/bin/bash
# builds both harness crates against /repo's working tree
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
for c in te ql; do (cd $c && cargo build --offline -q 2>/dev/null) || exit 1; done
# the interpreted crate; without it the "memory model" facets say nothing
(cd mir && CARGO_TARGET_DIR=$PWD/target MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks" env -u RUSTUP_TOOLCHAIN timeout 600 cargo +nightly miri run -q --offline -- counters >/dev/null 2>&1) || true
