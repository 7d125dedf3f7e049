#!/bin/sh
# rustc for the guided build: the system under observation counts its edges and reports its comparisons with constants.
rustc="$1"
shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  symbolic_rust)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
  mon) exec "$rustc" "$@" --cfg guided ;;
  *) exec "$rustc" "$@" ;;
esac
