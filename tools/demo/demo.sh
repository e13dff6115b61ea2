#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp "$here"/*.rs "$here"/Cargo.toml "$w"/
cp /repo/Cargo.lock "$w"/
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w"/target
cargo build --offline --quiet --bin demo >"$w"/log 2>&1 || { tail -30 "$w"/log; exit 4; }
timeout 60 "$w"/target/debug/demo 2>/dev/null
