#!/bin/bash
# Builds both harness crates once (each check also builds what it needs by itself).
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS='--cap-lints allow'
mkdir -p target replays evidence
for c in core full; do
    [ -d "$c" ] || continue
    (cd "$c" && CARGO_TARGET_DIR=$PWD/../target/$c cargo build --release --offline --locked) || exit 1
    [ $c = core ] && { (cd core && CARGO_TARGET_DIR=$PWD/../target/core cargo build --profile plain --offline --locked) || exit 1; }
done
# for the interpreter (C43); that check builds it again, and says so if it cannot
ROOT=$PWD
. tools/interp.sh
build_interpreted || echo "the harness was not built for the interpreter"
exit 0
