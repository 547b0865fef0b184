# Sourced by check.sh and setup.sh, with ROOT set: the harness for Miri, the interpreter that watches every memory access.
# `cargo miri run` builds a binary and runs it; afterwards the check runs it by the interpreter alone.
NIGHTLY=$(RUSTUP_TOOLCHAIN=nightly rustup which cargo 2>/dev/null)
NIGHTLY=${NIGHTLY%/bin/cargo}
export VERIF_MIRI_TOOLS=$NIGHTLY VERIF_MIRI_SRC=$ROOT
export VERIF_MIRI_BINS=$ROOT/target/miri-full/miri/x86_64-unknown-linux-gnu/interp
export VERIF_MIRI_CORE=$ROOT/target/miri-core/miri/x86_64-unknown-linux-gnu/interp
build_interpreted() {
    # /repo's modules are recompiled whatever their time stamps (the nightly cargo keeps a crate under build/NAME)
    find "$ROOT"/target/miri-* \( -path '*fingerprint/rusty-machine-*' -o -path '*/build/rusty-machine' \) -prune -exec rm -rf {} + 2>/dev/null
    (
        # the interpreter's cargo takes no flags from here
        unset RUSTFLAGS RUSTC_WRAPPER
        export RUSTUP_TOOLCHAIN=nightly MIRIFLAGS=-Zmiri-disable-isolation
        # the standard library for it, if it is not there yet
        SYSROOT=$(cargo miri setup --print-sysroot) && [ -d "$SYSROOT" ] || exit 1
        echo "$SYSROOT" >"$ROOT/target/miri-sysroot.txt"
        one() {
            (cd "$ROOT/$1" && CARGO_TARGET_DIR=$ROOT/target/miri-$1 cargo miri run --profile interp --offline --locked --bin "$2" -- --list)
        }
        one core core-checks || exit 1
        for b in toolkit optim linear bayes svmgp nnet knn cluster transforms analysis contracts memory; do
            one full $b || exit 1
        done
    ) && VERIF_MIRI_SYSROOT=$(cat "$ROOT/target/miri-sysroot.txt") && export VERIF_MIRI_SYSROOT
}
