#!/bin/bash
# ./check.sh <property> [options]     decides a property (VERIF_SEED, VERIF_TIER)
# ./check.sh replay <file>            executes a replay file
# ./check.sh selftest <property>      runs the same plans in different groupings and compares their histories
# ./check.sh show <property> <run>    prints the plan of a run
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
mode=check
case "$1" in
replay) mode=replay; file="$2"; id=$(sed -n 's/^  "property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1); shift 2 ;;
selftest | show) mode="$1"; id="$2"; shift 2 ;;
*) id="$1"; shift ;;
esac
case "$id" in
C01 | C02 | C03 | C04 | C05 | C06 | C07 | C08 | C09) part=proc ;;
C20 | C21) part=gen ;;
C1?) part=lib ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
export SIM_REPO="${SIM_REPO:-/repo}" VERIF_ROOT="$V" RUST_BACKTRACE=0
export SIM_GENERATORS="$V/build/gens" SIM_PRELOAD="$V/build/libsimio.so"
case $part in
proc)
    bash sim/build.sh proc || exit 2
    exec build/target/debug/simproc $mode $id $file "$@" ;;
lib)
    bash sim/build.sh lib || exit 2
    exec build/inst/debug/simlib $mode $id $file "$@" ;;
gen)
    export SIM_CORPUS_KIND=$id SIM_CORPUS_SEED=${VERIF_SEED:-1} SIM_CORPUS_COUNT=96 SIM_CORPUS="$V/build/corpus/corpus.json"
    case " $* " in *" --tier thorough "*) SIM_CORPUS_COUNT=400 ;; *" --tier "*) ;; *) [ "$VERIF_TIER" = thorough ] && SIM_CORPUS_COUNT=400 ;; esac
    [ $mode = replay ] && export SIM_CORPUS_REPLAY="$file"
    bash sim/build.sh gen || exit 2
    exec build/inst/debug/simgen $mode $id $file "$@" ;;
esac
