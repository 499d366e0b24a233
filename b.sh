#!/bin/bash
# developer build
cd /verif/sim && RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUSTFLAGS= cargo build --target-dir /verif/.build "$@" 2>&1 | grep -E "^error" -A12 | head -${L:-90}
