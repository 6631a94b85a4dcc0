#!/bin/bash
# Run with cwd at the repository, after the build. Exit 0: the promise holds here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 2
unset RUST_LOG
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="--cfg verif_hooks --cap-lints allow"
cargo build -q --offline || exit 2
timeout 100 "$work/target/debug/demo"
