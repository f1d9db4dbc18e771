#!/bin/bash
# run in the repository: builds the small program beside this file against it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" CARGO_HOME="${CARGO_HOME:-/root/.cargo}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
unset RUSTFLAGS RUST_LOG
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/demo.rs" "$w/src/demo.rs"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$w/Cargo.toml"
cp "$here/demo.lock" "$w/Cargo.lock"
export CARGO_TARGET_DIR="$repo/target"
cd "$w" || exit 9
cargo build --offline --quiet 2> "$w/log" || { cat "$w/log"; exit 9; }
cp "$repo/target/debug/oca-demo" "$w/oca-demo"
cd "$w/scratch" && timeout 60 "$w/oca-demo"
