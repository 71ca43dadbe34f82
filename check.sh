#!/bin/bash
# check.sh <property> quick|thorough   decide one property on /repo's working tree
# check.sh replay <file>               run a replay file again (exit 1: it fails again)
# check.sh determinism <property> [<runs>]   run the same seeds twice and compare
# check.sh build                       build the simulator only
#
# Exit 0: held on everything explored. Exit 1: VIOLATION printed. Anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:${PATH:-/usr/bin:/bin}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$here/sim/target"
export VERIF_SEED="${VERIF_SEED:-1}"
unset CARGO_BUILD_TARGET RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"

build() {
    (
        flock 9
        cd "$here/sim" && cargo build --release --offline --locked
    ) 9>"$CARGO_TARGET_DIR/.verif-lock" >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
        cat "$CARGO_TARGET_DIR/build.log" >&2
        echo "the simulator could not be built against /repo" >&2
        exit 2
    }
}

build || exit 2
sim="$CARGO_TARGET_DIR/release/sim"
case "$1" in
build) exit 0 ;;
replay) exec "$sim" replay "$2" ;;
determinism) exec "$sim" determinism "$2" "$VERIF_SEED" 0 "${3:-20000}" ;;
C*) exec "$sim" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*)
    echo "usage: check.sh <property> quick|thorough | replay <file> | determinism <property>" >&2
    exit 2
    ;;
esac
