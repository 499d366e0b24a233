#!/bin/bash
# replay.sh FILE: reproduces the execution recorded in a replay file against /repo's working tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true
case $(grep -o '"variant": *"[a-z]*"' "$1") in
*threads*)
    t=$here/.build-mt; a="--target x86_64-unknown-linux-gnu --features mt"
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" ;;
*bare*) t=$here/.build-bare; a=--no-default-features ;;
*) t=$here/.build; a= ;;
esac
(cd "$here/sim" && cargo build -q --offline --target-dir "$t" $a 2>/dev/null) || { echo "cannot build the simulation" >&2; exit 2; }
[ -d "$t/x86_64-unknown-linux-gnu" ] && t=$t/x86_64-unknown-linux-gnu
exec "$t/debug/brosim" replay "$1"
