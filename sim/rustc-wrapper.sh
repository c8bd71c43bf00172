#!/bin/sh
# RUSTC_WRAPPER: compiles the library under test and the thin layer that calls it
# with a callback at every edge, load and store. The simulator implements the
# callbacks: they are its preemption points. Everything else is compiled as usual.
rc="$1"; shift
case " $* " in
*" --crate-name xprs "*|*" --crate-name xdriver "*)
  exec "$rc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rc" "$@"
