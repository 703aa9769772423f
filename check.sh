#!/bin/bash
# check.sh check <ID> | replay <FILE> | setup
# Builds the tool from /repo's working tree and the harness, then runs one check.
# Exit status: 0 held, 1 violated, 3 no answer.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
REPO="${REQTRACE_REPO:-/repo}"
BUILD="$VERIF_DIR/.build"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p "$BUILD" "$VERIF_DIR/evidence"
exec 9>"$BUILD/lock"

build() {
    flock 9
    # never trust a fingerprint of the tool itself: cargo goes by time stamps
    rm -rf "$BUILD"/cli/debug/.fingerprint/reqtrace-* "$BUILD"/cli/debug/reqtrace
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 \
        cargo build --offline --quiet --bin reqtrace --manifest-path "$REPO/Cargo.toml" \
        --target-dir "$BUILD/cli" >"$BUILD/cli.log" 2>&1 || { tail -40 "$BUILD/cli.log" >&2; echo "ERROR: the tool does not build" >&2; return 3; }
    cargo build --offline --quiet --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
        --target-dir "$BUILD/harness" >"$BUILD/harness.log" 2>&1 || { tail -40 "$BUILD/harness.log" >&2; echo "ERROR: the harness does not build" >&2; return 3; }
    flock -u 9
}

build || exit 3
[ "$1" = setup ] && exit 0

SHM=/dev/shm
[ -d "$SHM" ] && [ -w "$SHM" ] || SHM=/tmp
VERIF_SCRATCH="$(mktemp -d "$SHM/reqtrace-verif.XXXXXX")" || exit 3
export VERIF_SCRATCH
trap 'rm -rf -- "$VERIF_SCRATCH"' EXIT
cp "$BUILD/cli/debug/reqtrace" "$VERIF_SCRATCH/reqtrace" || exit 3
export REQTRACE_BIN="$VERIF_SCRATCH/reqtrace"
LIMIT=800
[ "$VERIF_TIER" = thorough ] && LIMIT=14400
timeout -k 5 "$LIMIT" "$BUILD/harness/debug/harness" "$@" 9>&-
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 3 ;; esac
