#!/bin/bash
# check.sh <property id> [--thorough] [--replay FILE | --section NAME | --scale X]
# Rebuilds the harness from /repo's working tree and runs one check.
# Exit: 0 held, 1 VIOLATION printed, 2 the check itself failed.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable
# Lints of /repo (deny(missing_docs)) are not what is judged here.
export RUSTFLAGS='--cap-lints allow'
ID=$1
[ -n "$ID" ] || { echo "usage: check.sh ID"; exit 2; }
case $ID in
    C0[1-8]) CRATE=core; BIN=core-checks ;;
    C1[0-2]) CRATE=full; BIN=toolkit ;;
    C1[34]|C42) CRATE=full; BIN=optim ;;
    C1[678]) CRATE=full; BIN=linear ;;
    C19) CRATE=full; BIN=bayes ;;
    C2[01]) CRATE=full; BIN=svmgp ;;
    C2[23]) CRATE=full; BIN=nnet ;;
    C2[45]) CRATE=full; BIN=knn ;;
    C2[678]) CRATE=full; BIN=cluster ;;
    C29|C3[0-3]) CRATE=full; BIN=transforms ;;
    C3[4-7]) CRATE=full; BIN=analysis ;;
    C38|C39|C4[0145]) CRATE=full; BIN=contracts ;;
    C43) CRATE=full; BIN=memory ;;
    *) echo "unknown property $ID"; exit 2 ;;
esac
# The numbers written in these files go into the generators' dictionary.
L=/repo/src/learning
case $ID in
    C0[1-4]) D="$L/toolkit/rand_utils.rs" ;;
    C05) D="$L/toolkit/activ_fn.rs" ;;
    C0[678]) D="/repo/src/stats" ;;
    C1[0-2]) D="$L/toolkit" ;;
    C1[34]|C42) D="$L/optim" ;;
    C1[678]) D="$L/lin_reg.rs:$L/logistic_reg.rs:$L/glm.rs:$L/optim" ;;
    C19) D="$L/naive_bayes.rs:/repo/src/stats" ;;
    C2[01]) D="$L/svm.rs:$L/gp.rs:$L/toolkit/kernel.rs" ;;
    C2[23]) D="$L/nnet:$L/optim:$L/toolkit" ;;
    C2[45]) D="$L/knn" ;;
    C26) D="$L/k_means.rs" ;;
    C27) D="$L/gmm.rs:$L/toolkit/rand_utils.rs" ;;
    C28) D="$L/dbscan.rs" ;;
    C29|C3[0-3]) D="/repo/src/data:$L/pca.rs:/repo/src/datasets/mod.rs" ;;
    C3[4-7]) D="/repo/src/analysis" ;;
    *) D="$L" ;;
esac
export VERIF_LITERALS=$D
export CARGO_TARGET_DIR=$ROOT/target/$CRATE
mkdir -p "$ROOT/target" "$ROOT/replays" "$ROOT/evidence"
LOG=$ROOT/target/build-$CRATE.log
# Modules of /repo are recompiled whatever their time stamps.
find "$CARGO_TARGET_DIR" \( -path '*fingerprint/rusty-machine-*' -o -path '*/build/rusty-machine' \) -prune -exec rm -rf {} + 2>/dev/null
if ! (cd "$CRATE" && cargo build --release --offline --locked --bin "$BIN") >"$LOG" 2>&1; then
    grep -E '^error' -A12 "$LOG" | head -60
    echo "check $ID: the harness does not build against /repo (see $LOG)"
    exit 2
fi
if [ $ID = C43 ]; then
    . tools/interp.sh
    if ! build_interpreted >>"$LOG" 2>&1; then
        echo "check $ID: the harness does not build for the interpreter (see $LOG)"
        exit 2
    fi
fi
shift
if [ "$1" = --thorough ]; then export VERIF_TIER=thorough; shift; fi
if [ $CRATE = core ]; then
    # also as users compile it: no debug assertions, wrapping arithmetic (a part of the cases)
    if ! (cd core && cargo build --profile plain --offline --locked --bin "$BIN") >>"$LOG" 2>&1; then
        echo "check $ID: the harness does not build without debug assertions (see $LOG)"
        exit 2
    fi
    if [ $# = 0 ] || [ "$1" = --replay ]; then
        PART=(--scale 0.2)
        [ "$1" = --replay ] && PART=("$@")
        OUT=$("$CARGO_TARGET_DIR/plain/$BIN" "$ID" "${PART[@]}" 2>&1)
        RC=$?
        if [ $RC != 0 ]; then
            echo "compiled without debug assertions:"
            echo "$OUT"
            exit $RC
        fi
    fi
fi
exec "$CARGO_TARGET_DIR/release/$BIN" "$ID" "$@"
