#!/bin/bash
# RUSTC_WRAPPER: adds LLVM trace-pc-guard instrumentation (preemption points for the simulator)
# to the crates whose interleavings matter.
rustc="$1"; shift
name=
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; break; fi
done
case "$name" in
  gssim|groth_sahai|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
