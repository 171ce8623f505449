#!/bin/bash
# Builds parts of the simulators from /repo's current tree: gens | proc | lib | gen
# Nothing is written outside /verif/build and /repo's ignored Cargo.lock.
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${SIM_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$V/build/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTC_WRAPPER RUSTFLAGS
mkdir -p "$V/build"
exec 9>"$V/build/lock"
flock 9
# sources are compared by contents, whatever their time stamps say
HASH=$(cd "$R" && find Cargo.toml lexan lalr1 alalr1 lalr1_lib alalr1_lib lalr1_gen alalr1_gen -name target -prune -o -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
if [ "$HASH" != "$(cat "$V/build/repo.hash" 2>/dev/null)" ]; then
    rm -f "$V/build/repo.hash" "$V"/build/built.*
    # forget what was compiled from the earlier sources
    for d in "$V"/build/target/debug "$V"/build/inst/debug; do
        rm -rf "$d"/.fingerprint/{lexan,lalr1,alalr1,lalr1_lib,alalr1_lib,lalr1_gen,alalr1_gen,lalr1-,alalr1-,lalr1_lib-,alalr1_lib-,lexan-}* 2>/dev/null
    done
    echo "$HASH" > "$V/build/repo.hash"
fi
say() { echo "build: $*" >&2; }
fail() { echo "build of $1 failed" >&2; tail -60 "$V/build/$1.log" >&2; exit 2; }
preload() {
    [ "$V/build/libsimio.so" -nt "$V/sim/c/simio.c" ] && [ "$V/build/libsimio.so" -nt "$V/sim/c/simio.h" ] && return
    gcc -O2 -fPIC -shared -fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wall -o "$V/build/libsimio.so.new" "$V/sim/c/simio.c" > "$V/build/preload.log" 2>&1 || fail preload
    mv "$V/build/libsimio.so.new" "$V/build/libsimio.so"
}
gens() {
    cargo build --offline --manifest-path "$R/Cargo.toml" -p lalr1_gen -p alalr1_gen --config profile.dev.opt-level=1 --config profile.dev.debug=0 > "$V/build/gens.log" 2>&1 || fail gens
    mkdir -p "$V/build/gens"
    cp -f "$CARGO_TARGET_DIR/debug/lalr1_gen" "$CARGO_TARGET_DIR/debug/alalr1_gen" "$V/build/gens/"
}
proc() {
    preload
    gens
    cargo build --offline --manifest-path "$V/sim/simproc/Cargo.toml" > "$V/build/proc.log" 2>&1 || fail proc
}
lib() {
    CARGO_TARGET_DIR="$V/build/inst" RUSTC_WRAPPER="$V/sim/rustc-wrap.sh" cargo build --offline --manifest-path "$V/sim/simlib/Cargo.toml" > "$V/build/lib.log" 2>&1 || fail lib
}
# gen: SIM_CORPUS_KIND and SIM_CORPUS_SEED, SIM_CORPUS_COUNT or SIM_CORPUS_REPLAY say which parsers
gen() {
    gens
    cargo build --offline --manifest-path "$V/sim/simcorpus/Cargo.toml" > "$V/build/simcorpus.log" 2>&1 || fail simcorpus
    local D="$V/build/corpus" C="$V/build/target/debug/simcorpus"
    mkdir -p "$D"
    if [ -n "$SIM_CORPUS_REPLAY" ]; then
        "$C" replay "$SIM_CORPUS_REPLAY" "$D" > "$V/build/gen.log" 2>&1 || fail gen
    else
        "$C" make "$SIM_CORPUS_KIND" "$SIM_CORPUS_SEED" "$SIM_CORPUS_COUNT" "$D" > "$V/build/gen.log" 2>&1 || fail gen
    fi
    local n
    for n in 1 2 3 4 5 6; do
        CARGO_TARGET_DIR="$V/build/inst" RUSTC_WRAPPER="$V/sim/rustc-wrap.sh" cargo build --offline --keep-going --manifest-path "$V/sim/simgen/Cargo.toml" > "$V/build/gen.log" 2>&1 && return
        # what cannot be compiled is taken out (and reported by the check)
        "$C" failed "$V/build/gen.log" "$D" $([ $n -ge 3 ] && echo drop) || fail gen
    done
    fail gen
}
for part in "$@"; do $part; done
