#!/bin/bash
# check.sh PROPERTY TIER: builds the simulation against /repo's working tree and decides one property
set -u
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
triple=x86_64-unknown-linux-gnu
threads() { # the build with simulated threads: instrumented code, our own run-time
    RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" \
        build "$here/.build-mt" --target $triple --features mt
}
build() { # target dir, cargo arguments
    local t=$1; shift
    local log; log=$(mktemp)
    if ! (cd "$here/sim" && cargo build --offline --target-dir "$t" "$@" >"$log" 2>&1); then
        grep -E "^error" -A12 "$log" | head -60 >&2
        rm -f "$log"
        echo "cannot build the simulation" >&2
        return 1
    fi
    rm -f "$log"
}
build "$here/.build" || exit 2
bin=$here/.build/debug/brosim
rc=0
"$bin" check "$prop" "$tier" "$seed" || rc=$?
[ $rc -eq 0 ] || exit $rc
# the library without serialisation and encryption
if "$bin" bare "$prop" "$tier"; then
    build "$here/.build-bare" --no-default-features || exit 2
    BROSIM_MERGE=1 "$here/.build-bare/debug/brosim" check "$prop" "$tier" "$seed" || rc=$?
fi
[ $rc -eq 0 ] || exit $rc
# application code on several threads
if "$bin" threaded "$prop" "$tier"; then
    threads || exit 2
    BROSIM_MERGE=1 "$here/.build-mt/$triple/debug/brosim" check "$prop" "$tier" "$seed" || rc=$?
fi
exit $rc
