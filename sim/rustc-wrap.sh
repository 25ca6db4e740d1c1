#!/bin/sh
# Adds yield points (basic-block edges, loads, stores) to the library under test and to the crate
# its generic code is instantiated in. Everything else is compiled as usual.
rustc="$1"; shift
prev=
name=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
rustc_apfloat | shim | smallvec)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
*) exec "$rustc" "$@" ;;
esac
