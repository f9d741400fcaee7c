#!/bin/bash
# Builds every check once, offline.
set -eu
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="--force-warn unused-attributes"
export CARGO_TARGET_DIR="${PBT_TARGET:-$PWD/pbt/target}"
cargo build --offline --release --quiet --manifest-path pbt/Cargo.toml --bins 2>/dev/null || cargo build --offline --release --manifest-path pbt/Cargo.toml --bins
