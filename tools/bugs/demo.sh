#!/bin/bash
# cwd: /repo after its build. Exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
generic-btree = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR=$d/target cargo build -q --offline || exit 2
timeout 60 "$d/target/debug/demo"
