#!/bin/bash
# Scheduling points at every basic block of the code under simulation
rustc="$1"
shift
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
lexan | lalr1 | alalr1 | lalr1_lib | alalr1_lib | simlib | simgen | corpus*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
