#!/bin/bash
# determinism.sh [RUNS_PER_PROPERTY] [SEEDS]: every run's event-log digest must be
# the same in different processes, at different degrees of parallelism, and for
# every split of the index range.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
n=${1:-400}; seeds=${2:-6}; bad=0; total=0
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
for bin in target/plain/release/gbsim target/hooked/simdbg/gbsim; do
  for s in $(seq 1 $seeds); do
    for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14; do
      echo "$bin $p $s"
    done
  done
done > "$d/jobs"
run() { # bin prop seed: once in one process, once in four
  local tag=$(echo "$1-$2-$3" | tr / _)
  $1 digests $2 $3 0 $n 0 > "$d/$tag.a" 2>/dev/null
  : > "$d/$tag.b"
  for k in 0 1 2 3; do $1 digests $2 $3 $((n*k/4)) $((n*(k+1)/4)) 0 >> "$d/$tag.b" 2>/dev/null; done
  cmp -s "$d/$tag.a" "$d/$tag.b" && echo same || echo "DIFFERENT $1 $2 $3"
}
export -f run; export d n
for par in 1 8; do
  [ $par = 1 ] && jobs=$(head -26 "$d/jobs") || jobs=$(cat "$d/jobs")
  echo "$jobs" | xargs -P $par -I{} bash -c 'run {}' > "$d/res.$par"
done
for b in "$d"/*.a; do total=$((total + $(wc -l < "$b"))); done
grep -h DIFFERENT "$d"/res.* && bad=1
echo "$total distinct runs executed at least twice in different processes; $(cat "$d"/res.* | grep -c same) comparisons equal"
exit $bad
