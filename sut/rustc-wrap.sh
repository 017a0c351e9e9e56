#!/bin/bash
# RUSTC_WRAPPER for the build of the system under test: adds edge instrumentation
# (sancov trace-pc-guard) to the crates of the repository only.
rustc="$1"; shift
crate=""; type=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  [ "$prev" = "--crate-type" ] && type="$a"
  prev="$a"
done
case "$crate" in
  csvpp|csvp)
    link=()
    [ "$type" = bin ] && link=("-Clink-arg=$SUT_LIBCOV")
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${link[@]}" ;;
  *) exec "$rustc" "$@" ;;
esac
