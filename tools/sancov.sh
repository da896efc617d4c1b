#!/bin/bash
# A rustc that instruments the crate under test and the harness's glue for libFuzzer; all other
# crates (regex, the dictionaries, the reference stemmers) are compiled plainly.
name=
for a; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case $name in
elasticlunr)
    exec "$@" -Cpasses=sancov-module -Ccodegen-units=1 \
        -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*)
    exec "$@" ;;
esac
