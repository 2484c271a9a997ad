#!/bin/bash
# check.sh <property> [quick|thorough]  -- rebuilds the harness against /repo's
# working tree and decides one property.  Exit 0 held, 1 violated, 2 no answer.
# check.sh --build only builds.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/mc" || exit 2
export CARGO_TARGET_DIR="$V/mc/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9>"$CARGO_TARGET_DIR/.mc-lock"
flock 9
# cargo trusts time stamps; a tree laid out with old ones must still be seen
sum="$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)"
build() { # <directory> <target directory>
    mkdir -p "$2" && cd "$1" || exit 2
    if [ "$(cat "$2/.mc-stamp" 2>/dev/null)" != "$sum" ]; then
        CARGO_TARGET_DIR="$2" cargo clean --offline --release -p amxml >/dev/null 2>&1
        [ "$1" = . ] || CARGO_TARGET_DIR="$2" cargo clean --offline --release >/dev/null 2>&1
    fi
    if ! CARGO_TARGET_DIR="$2" cargo build --offline --release >"$2/.mc-build.log" 2>&1; then
        echo "ERROR: build failed"
        tail -40 "$2/.mc-build.log"
        exit 2
    fi
    echo "$sum" >"$2/.mc-stamp"
}
build . "$CARGO_TARGET_DIR"
# the sample program is judged by C28 alone
case "${1:-}" in C28|--build) build "$V/mc/sample" "$CARGO_TARGET_DIR/sample" ;; esac
# these also run very long inputs through an unoptimised library
case "${1:-}" in C01|C06|C07|C14|--build) build "$V/mc/deep0" "$CARGO_TARGET_DIR/deep0" ;; esac
flock -u 9
exec 9>&-
[ "${1:-}" = "--build" ] && exit 0
export MC_KNOWN="$V/known_findings.txt"
"$CARGO_TARGET_DIR/release/mc" run "$1" "${2:-${VERIF_TIER:-quick}}" "$V"
