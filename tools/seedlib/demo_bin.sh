#!/bin/bash
# Run with cwd at the repository, after the build. Exit 0: the promise holds here.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
unset RUST_LOG RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cargo build -q --offline --bin plusendi || exit 2
cd "$work" || exit 2
timeout 100 python3 "$here/demo.py" "$work/target/debug/plusendi"
