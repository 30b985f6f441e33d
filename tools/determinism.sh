#!/bin/bash
# determinism.sh [RUNS] [SEED]: every property's first runs twice, once pinned to one processor and once
# competing for all of them; the complete outputs (counts, faults fired, states reached) must agree.
n=${1:-600} seed=${2:-7}
here=$(cd "$(dirname "$0")/.." && pwd); bin=$("$here/build.sh" std) || exit 2
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19 C20; do
    taskset -c 0 "$bin" work $p --seed $seed --lo 0 --hi $n --known "$here/known_findings.txt" | sort > "$t/a" &
    for i in 1 2 3; do "$bin" work $p --seed $seed --lo 0 --hi $n --known "$here/known_findings.txt" | sort > "$t/$i" & done
    wait
    for i in 1 2 3; do cmp -s "$t/a" "$t/$i" || { echo "$p differs"; bad=1; }; done
    echo "$p $(grep -c ^shape "$t/a") shapes, $(grep -P '^count\ttxns' "$t/a" | cut -f3) transactions"
done
exit $bad
