#!/bin/bash
# try_bug.sh ID...: confirm planted bugs in a scratch copy (see DESIGN.md)
# builds, stable tests pass, demo 0 without / nonzero with the patch, and which checks see it
cd "$(dirname "$0")/.." || exit 2
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
S=${SCRATCH:-/tmp/try}
if [ ! -d $S ]; then mkdir -p $S; cp -a /repo $S/repo; rm -rf $S/repo/target; cp -a sim $S/sim; sed -i 's#path = "/repo"#path = "../repo"#' $S/sim/Cargo.toml; fi
rm -rf $S/repo/src; cp -a /repo/src $S/repo/src
rm -rf $S/sim/src; cp -a sim/src $S/sim/src
for id in "$@"; do
  b=seeded/$id
  git -C $S/repo checkout -q -- . 2>/dev/null
  rm -rf $S/repo/src; cp -a /repo/src $S/repo/src
  if [ -z "$NODEMO" ]; then ( cd $S/repo && timeout 300 bash /verif/$b/demo.sh >/tmp/demo0.log 2>&1 ); d0=$?; fi
  ( cd $S/repo && git apply /verif/$b/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then ( cd $S/repo && timeout 300 bash /verif/$b/demo.sh >/tmp/demo1.log 2>&1 ); d1=$?; fi
  [ -z "$NOTEST" ] && ( cd $S/repo && CARGO_TARGET_DIR=$S/tt timeout 400 cargo test --offline --lib --tests -- --include-ignored --test-threads 4 >$S/test.log 2>&1 )
  t=$(grep -E '^test .*FAILED' $S/test.log | grep -v 'rope::test::test_update\|test result' | tr '\n' ' ')
  grep -q 'test result' $S/test.log || t="no result"
  ( cd $S/sim && RUSTFLAGS="--cfg gbtree_sim" CARGO_TARGET_DIR=$S/st cargo build -q --offline --profile simdbg 2>/dev/null ) || echo "sim build failed"
  k=""
  mkdir -p $S/wk
  for p in C14 C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12; do
    rm -f $S/wk/stats.0
    timeout 60 bash -c "ulimit -v 6000000; exec $S/st/simdbg/gbsim worker $p 0 ${VERIF_SEED:-1} 0 1 ${RUNS:-6000} 20 $S/wk" >/dev/null 2>&1
    if [ -f $S/wk/stats.0 ]; then f=$(grep '^found' $S/wk/stats.0 | awk '{print $3"@"$2}'); else f=ABORT; fi
    [ -n "$f" ] && k="$k $p:$f"
  done
  echo "$id: demo unchanged=$d0 patched=$d1 tests='${t:-pass}' sim:$k"
  [ "$d0" != 0 ] && tail -3 /tmp/demo0.log
  rm -rf $S/repo/src; cp -a /repo/src $S/repo/src
done
