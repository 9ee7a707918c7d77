#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac
./build.sh || exit 2
mkdir -p evidence out
hooked=target/hooked/simdbg/gbsim; [ -x $hooked ] || hooked=-
export GBSIM_KNOWN=$PWD/known_findings.txt
exec target/plain/release/gbsim check "$prop" "$tier" "$seed" target/plain/release/gbsim "$hooked" out "evidence/$prop.json"
