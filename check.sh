#!/bin/bash
# check.sh <property> [case <n>]: builds the harness (and, where needed, the binaries) from /repo's
# working tree and runs the check of that property; with "case <n>", only that case of it.
# With VERIF_TIER=thorough, the checks of SANITIZED are preceded by shorter runs of builds with
# AddressSanitizer and ThreadSanitizer; VERIF_BUDGET is the time for each run, in seconds.
# Exit 0: held on everything observed. 1: violated (VIOLATION line). 2: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET VH_SAN VH_BINS
id=$1
mkdir -p "$here/build" "$here/evidence"
log="$here/build/log.$$"
build() { # <what> <command>...
    local what=$1
    shift
    if ! "$@" >"$log" 2>&1; then
        tail -n 40 "$log" >&2
        echo "no verdict: $what does not build" >&2
        exit 2
    fi
}
trap 'rm -f "$log"' EXIT
build "the harness" cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/build"
case $id in
C16 | C17 | C18 | C19 | C23)
    binaries=yes
    build "koala-planner/HDDL-Parser" cargo build --offline --bins --manifest-path /repo/Cargo.toml --target-dir "$here/build/bin"
    ;;
esac
if [ "$2" = case ]; then
    "$here/build/debug/vh" case "$here" "$id" "$3"
    exit
fi

# A report of a sanitizer aborts the process that it is about, which the monitors take for a crash.
sanitized() { # <sanitizer>
    local t=x86_64-unknown-linux-gnu dir="$here/build/san/$1"
    rm -f "$here/build/san/$id-$1.json"
    san() { RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=$1" CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build -Zbuild-std --offline --target $t "${@:2}"; }
    if ! san "$1" --manifest-path "$here/harness/Cargo.toml" --target-dir "$dir" >"$log" 2>&1 ||
        { [ "$binaries" ] && ! san "$1" --bins --manifest-path /repo/Cargo.toml --target-dir "$dir/bin" >"$log" 2>&1; }; then
        echo "no run with the $1 sanitizer: it does not build here" >&2
        return 0
    fi
    (
        ulimit -s 131072 2>/dev/null
        export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0
        export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1
        export RUST_MIN_STACK=134217728 VH_SAN=$1 VH_BINS="$dir/bin/$t/debug"
        "$dir/$t/debug/vh" run "$here" "$id"
    )
}
if [ "$VERIF_TIER" = thorough ]; then
    case $id in
    C01) sanitizers="address" ;;
    C15) sanitizers="address thread" ;;
    C17 | C18 | C19) sanitizers="address thread" ;;
    esac
    for s in $sanitizers; do
        sanitized $s
        code=$?
        [ $code = 1 ] && exit 1
        [ $code = 0 ] || echo "no verdict of the run with the $s sanitizer" >&2
    done
fi
"$here/build/debug/vh" run "$here" "$id"
