#!/bin/bash
# RUSTC_WRAPPER of the coverage-guided build: instruments the library and the harness (not their
# dependencies) for libFuzzer and links its driver into the harness's binaries.
name=
prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
flags=(-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3
    -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table
    -C llvm-args=-sanitizer-coverage-trace-compares)
lib=$(ls /usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a 2>/dev/null | tail -n 1)
case $name in
    normalize_interval|nicheck) exec "$@" "${flags[@]}" ;;
    ni_*) exec "$@" "${flags[@]}" -C link-arg="$lib" -C link-arg=-lstdc++ ;;
    *) exec "$@" ;;
esac
