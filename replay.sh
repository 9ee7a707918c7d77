#!/bin/bash
# replay.sh FILE : rebuild from /repo and execute a replay file in the build it was found with.
# Exit 1 and the failure line if it still violates its property, 0 if not.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
bin=target/plain/release/gbsim
if grep -q '^meta flavour hooked' "$f"; then bin=target/hooked/simdbg/gbsim; fi
out=$($bin exec "$f"); rc=$?
echo "$out"
want=$(sed -n 's/^meta digest //p' "$f")
got=$(echo "$out" | sed -n 's/.*digest=\([0-9a-f]*\).*/\1/p')
if [ $rc -eq 1 ] && [ -n "$want" ]; then
  [ "$want" = "$got" ] && echo "event log identical to the recorded one ($got)" || echo "event log differs: recorded $want, now $got"
fi
exit $rc
