#!/bin/bash
# check.sh <PROPERTY> <quick|thorough|replay> [replay file]
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
prop="$1"; mode="${2:-quick}"; shift; shift || true
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--force-warn unused-attributes"
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${PBT_TARGET:-$VERIF_DIR/pbt/target}"
bin="$(echo "$prop" | tr 'A-Z' 'a-z')"
log="$(mktemp)"
if ! cargo build --offline --release --quiet --manifest-path pbt/Cargo.toml --bin "$bin" >"$log" 2>&1; then
  cat "$log"; rm -f "$log"; echo "ERROR: build of the $prop check failed"; exit 2
fi
rm -f "$log"
ulimit -c 0
exec "$CARGO_TARGET_DIR/release/$bin" "$mode" "$@"
