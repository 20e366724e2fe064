#!/usr/bin/env bash
# check.sh <ID>            build against /repo's working tree and decide property <ID>
# check.sh replay <file>   run one saved case again
# check.sh build [variant] build only: pub, hooks, asan or all
# Where the internal functions that a property calls cannot be reached any more, it is decided through the
# public functions.
# Exit: 0 holds, 1 violation (with a VIOLATION line), 2 no verdict.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
HOOK='--cfg puzzle_utils_verif'

variant_of() {
    case "$1" in
        S06) echo asan ;;
        X*|U*) echo hooks ;;
        *) echo pub ;;
    esac
}

build() {
    local out="$VERIF/target/$1" log
    mkdir -p "$out"
    log="$out/build.$$.log"
    cd "$VERIF/harness" || return 2
    case "$1" in
        pub)   BIN="$out/release/puzzle-verif"
               cargo build --release --offline --locked --target-dir "$out" >"$log" 2>&1 ;;
        hooks) BIN="$out/release/puzzle-verif"
               RUSTFLAGS="$HOOK" cargo build --release --offline --locked --features hooks --target-dir "$out" >"$log" 2>&1 ;;
        asanpub) BIN="$out/x86_64-unknown-linux-gnu/release/puzzle-verif"
               RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --release --offline --locked \
                   --target x86_64-unknown-linux-gnu --target-dir "$out" >"$log" 2>&1 ;;
        asan)  BIN="$out/x86_64-unknown-linux-gnu/release/puzzle-verif"
               RUSTFLAGS="-Zsanitizer=address $HOOK" cargo +nightly build --release --offline --locked --features hooks \
                   --target x86_64-unknown-linux-gnu --target-dir "$out" >"$log" 2>&1 ;;
    esac
    local rc=$?
    if [ $rc -ne 0 ]; then
        echo "ERROR the $1 build failed:"
        grep -E '^(error|warning: unused)|^ *-->' "$log" | head -40
        tail -5 "$log"
        rm -f "$log"
        return 2
    fi
    rm -f "$log"
}

# The variant of a property, or the one without hooks if that does not compile.
build_for() {
    local v
    v=$(variant_of "$1")
    build "$v" && return
    case "$v" in
        hooks) echo "NOTE deciding $1 through the public functions"; build pub ;;
        asan)  echo "NOTE deciding $1 through the public functions"; build asanpub ;;
        *)     return 2 ;;
    esac
}

export ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"

case "${1:-}" in
    build)
        for v in $( [ "${2:-all}" = all ] && echo pub hooks asan || echo "$2" ); do build "$v" || exit 2; done ;;
    replay)
        id=$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | grep -o '[A-Z][0-9]*' | tail -1)
        build_for "$id" || exit 2
        "$BIN" replay "$(cd "$OLDPWD" 2>/dev/null; realpath "$2")" ;;
    [A-Z]*)
        build_for "$1" || exit 2
        cd "$VERIF" && "$BIN" check "$1" "$VERIF" ;;
    *) echo "usage: check.sh <ID> | replay <file> | build [variant]"; exit 2 ;;
esac
