#!/bin/sh
# cargo's RUSTC_WRAPPER: has basic blocks and memory accesses of the library and of the caller code reported
rustc=$1
shift
case " $* " in
*" --crate-name sim "* | *" --crate-name artlr_syntax "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$rustc" "$@"
