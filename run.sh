#!/bin/bash
# Build the harness against /repo's working tree and decide one property.
#   run.sh build
#   run.sh check ID quick|thorough
#   run.sh replay FILE
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${HV_TARGET:-$VERIF/target}"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET
LINTS="-A semicolon_in_expressions_from_macros -A warnings"

log="$(mktemp /tmp/hv-build.XXXXXX)"
trap 'rm -f "$log"' EXIT

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    # never trust time stamps: rebuild when the contents differ
    local sum
    sum="$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)"
    if [ "$(cat "$CARGO_TARGET_DIR/hastur.sum" 2>/dev/null)" != "$sum" ]; then
        (cd "$VERIF/harness" && RUSTFLAGS="$LINTS --cfg hastur_verif" cargo clean --offline --release -p hastur) >"$log" 2>&1
        (cd "$VERIF/harness" && cargo clean --offline --release -p hastur-harness) >>"$log" 2>&1
    fi
    if (cd "$VERIF/harness" && RUSTFLAGS="$LINTS --cfg hastur_verif" cargo build --offline --locked --release --features hooks) >"$log" 2>&1; then
        echo "$sum" >"$CARGO_TARGET_DIR/hastur.sum"
        return 0
    fi
    # the accessors behind the guard may not survive a change to private items:
    # what is public still decides most of every property
    echo "note: building without the guarded accessors" >&2
    if (cd "$VERIF/harness" && RUSTFLAGS="$LINTS" cargo build --offline --locked --release) >>"$log" 2>&1; then
        echo "$sum" >"$CARGO_TARGET_DIR/hastur.sum"
        return 0
    fi
    cat "$log" >&2
    return 1
}

case "${1:-}" in
build)
    build || exit 70
    ;;
check)
    build || exit 70
    "$CARGO_TARGET_DIR/release/hv" check "$2" --tier "${3:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$VERIF"
    exit $?
    ;;
replay)
    build || exit 70
    "$CARGO_TARGET_DIR/release/hv" replay "$2"
    exit $?
    ;;
*)
    echo "usage: run.sh build | check ID quick|thorough | replay FILE" >&2
    exit 64
    ;;
esac
