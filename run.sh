#!/bin/bash
# run.sh setup | run.sh <ID> quick|thorough | run.sh <ID> replay <file>
# Builds the harness against /repo's current working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF/target" CARGO_INCREMENTAL=0

# Cargo judges freshness by modification time; judge by content instead.
fresh() {
    mkdir -p "$CARGO_TARGET_DIR"
    local now
    now=$(cd /repo && find . \( -path ./.git -o -path ./target \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.source-hash" 2>/dev/null)" ]; then
        (cd harness && cargo clean -q --offline -p narrow -p narrow-ffi >/dev/null 2>&1)
        echo "$now" > "$CARGO_TARGET_DIR/.source-hash"
    fi
}

build() {
    fresh
    (cd harness && cargo build -q --offline "$@" 2>"$CARGO_TARGET_DIR/.build.log")
    local rc=$?
    if [ $rc -ne 0 ]; then
        cat "$CARGO_TARGET_DIR/.build.log" >&2
        echo "run.sh: the harness does not build against /repo" >&2
        exit 2
    fi
}

case "${1:-}" in
setup)
    build --workspace --bins
    ;;
P[0-9][0-9])
    id="$1"
    bin="$(echo "$id" | tr P p)"
    build --workspace --bin "$bin"
    exe="$CARGO_TARGET_DIR/debug/$bin"
    case "${2:-quick}" in
    replay) exec "$exe" --replay "$3" ;;
    *) exec "$exe" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --out "$VERIF" ;;
    esac
    ;;
*)
    echo "usage: run.sh setup | run.sh <ID> quick|thorough | run.sh <ID> replay <file>" >&2
    exit 2
    ;;
esac
