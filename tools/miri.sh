#!/bin/bash
# vh, interpreted by Miri
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=${VH_TARGET:-$here/target}/miri RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
exec cargo miri run -q --release --offline --locked --manifest-path "$here/harness/Cargo.toml" -- "$@"
