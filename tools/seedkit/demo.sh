#!/bin/bash
# Builds the demonstration beside this file against /repo's library (with stand-ins for the crates
# that are not available offline) in a scratch directory and runs it there.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/llamapun-demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/kit/." "$work"
cp "$here/main.rs" "$work/demo/src/main.rs"
export PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints=allow"
cd "$work/demo"
cargo build --quiet --offline --locked
mkdir "$work/scratch"
cd "$work/scratch"
DEMO_DATA="$here" timeout 120 "$work/target/debug/demo"
