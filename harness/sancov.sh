#!/bin/bash
# rustc wrapper: the crates under test report their loads, stores and basic blocks (see sched.rs)
rustc=$1; shift
for a; do [ "$p" = --crate-name ] && n=$a; p=$a; done
case "$n" in
  zk_regex_compiler|zk_regex_apis) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
