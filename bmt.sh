#!/bin/bash
# developer build of the variant with threads
cd /verif/sim && RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" cargo build --target x86_64-unknown-linux-gnu --features mt --target-dir /verif/.build-mt "$@" 2>&1 | grep -E "^error" -A12 | head -${L:-90}
