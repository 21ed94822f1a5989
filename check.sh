#!/bin/bash
# usage: check.sh <property-id> quick|thorough        run the check
#        check.sh <property-id> --replay <file>       re-run one recorded case
cd "$(dirname "$0")" || exit 2
export VF_ROOT=$PWD
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never TZ=UTC RUST_BACKTRACE=0
unset VF_PART VF_NOSHRINK VF_FACET VF_CHILD RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
ID=$1
case $(grep -x "$ID [a-z]*" tools/crates.txt | cut -d' ' -f2) in
  te) C=te ;;
  ql) C=ql ;;
  *) echo "unknown property $ID"; exit 2 ;;
esac
LOG=$(mktemp)
if ! (cd $C && cargo build --offline -q) >"$LOG" 2>&1; then
  tail -40 "$LOG"; rm -f "$LOG"; echo "build of the $C harness failed"; exit 2
fi
rm -f "$LOG"
shift
exec ./$C/target/debug/$C "$ID" "$@"
