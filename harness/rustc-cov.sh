#!/bin/bash
# wrapper of rustc for the coverage-guided search: instruments the library under test, and only it
case " $* " in
*" --crate-name fitsrs "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
    -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares \
    -Ccodegen-units=1 ;;
*) exec "$@" ;;
esac
