#!/bin/bash
# Compiler wrapper: the crate under test gets edge counters and traced comparisons.
rustc="$1"; shift
case " $* " in
  *" --crate-name osu_file_parser "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
