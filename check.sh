#!/bin/bash
# check.sh PROP | check.sh replay FILE | check.sh build
# Rebuilds the simulator from /repo's working tree, then runs it. Exit 0 held, 1 violated, 2 error.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_INCREMENTAL CARGO_TARGET_DIR
mkdir -p .build
exec 9>.build/lock
flock 9
# cargo judges freshness by file times, which a checkout or copy can set back: always compile the library anew
build() { # TARGET_DIR WRAPPER
    (cd sim && CARGO_TARGET_DIR="$1" cargo clean --release --offline -p artlr_syntax >/dev/null 2>&1
        RUSTC_WRAPPER="$2" CARGO_TARGET_DIR="$1" cargo build --release --offline --locked) >.build/log 2>&1 && return
    cat .build/log >&2
    echo "ERROR the simulator does not build against /repo" >&2
    exit 2
}
plain="$PWD/.build" fine="$PWD/.build/fine"
case "$1" in
build) build "$plain" "" && build "$fine" "$PWD/tools/rustc_fine.sh" && exit 0 ;;
replay) which=$(sed -n 's/^property //p' "$2" | head -1) ;;
*) which=$1 ;;
esac
case "$which" in
C14 | C15 | C18) # interleavings are the point: the build that can be preempted at every basic block and memory access
    build "$fine" "$PWD/tools/rustc_fine.sh" && made="$fine/release/sim" ;;
*) build "$plain" "" && made="$plain/release/sim" ;;
esac
bin="$(mktemp "$PWD/.build/run.XXXXXX")" && cp "$made" "$bin" && chmod +x "$bin" || exit 2
exec 9>&-
trap 'rm -f "$bin"' EXIT
case "$1" in
replay) "$bin" replay "$2" ;;
*) "$bin" check "$1" ;;
esac
