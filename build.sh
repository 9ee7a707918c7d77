#!/bin/bash
# Builds both flavours of the simulator from /repo's current working tree.
#   target/plain/release/gbsim   the shipped build of generic-btree
#   target/hooked/simdbg/gbsim   --cfg gbtree_sim, overflow checks, debug assertions
# The plain build must succeed; the hooked one may fall back (prints why).
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p target out
( flock 9
  ( cd sim && RUSTFLAGS="--cfg gbtree_sim" CARGO_TARGET_DIR=../target/hooked cargo build -q --offline --locked --profile simdbg ) >target/hooked.log 2>&1 &
  h=$!
  ( cd sim && CARGO_TARGET_DIR=../target/plain cargo build -q --offline --locked --release ) >target/plain.log 2>&1
  p=$?
  wait $h; h=$?
  if [ $p -ne 0 ]; then
    grep -E "^error" -A8 target/plain.log | head -40 >&2
    echo "build failed" >&2
    exit 2
  fi
  if [ $h -ne 0 ]; then
    echo "note: the hooked build failed, exploring with the plain build only" >&2
    grep -E "^error" -A8 target/hooked.log | head -20 >&2
    rm -f target/hooked/simdbg/gbsim
  fi
  exit 0
) 9>target/.lock
