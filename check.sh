#!/bin/bash
# check.sh <property>: decides one property on /repo's current working tree.
# VERIF_SEED selects the scenarios, VERIF_TIER how many. Exit 0: held on everything explored; 1: a
# VIOLATION line was printed; anything else: the check itself failed.
p=$1
here=$(cd "$(dirname "$0")" && pwd)
seed=${VERIF_SEED:-1} tier=${VERIF_TIER:-quick}
[ "$tier" = thorough ] || tier=quick
case $p in
    C05|C20) runs=600000 ;;
    C08) runs=200000 ;;
    C12) runs=40000 ;;
    C15) runs=30000 ;;
    C16) runs=24000 ;;
    C09|C10) runs=250000 ;;
    *) runs=150000 ;;
esac
bin=$("$here/build.sh" std) || exit 2
cd "$here" || exit 2
go() { # binary, runs, seed, label, evidence
    "$1" check "$p" --tier "$tier" --seed "$3" --runs "$2" --label "$4" --evidence "$5" --replays "$here/replays" --root "$here" --known "$here/known_findings.txt"
}
if [ "$tier" = quick ]; then
    go "$bin" $runs "$seed" "std, overflow checks on" "$here/evidence/$p.json"
    exit
fi
# Thorough: many more scenarios, plus the libm build.
libm=$("$here/build.sh" libm) || exit 2
go "$libm" $((runs * 2)) $((seed + 1000003)) "libm, overflow checks on" "$here/replays/$p-libm.json" || exit
go "$bin" $((runs * ${VERIF_SCALE:-5})) "$seed" "std, overflow checks on; $((runs * 2)) further runs with libm, evidence in replays/$p-libm.json" "$here/evidence/$p.json"
