#!/bin/bash
# Build the checker once (each check rebuilds what it needs from /repo).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
exec cargo build --manifest-path mc/Cargo.toml --release --offline --quiet
