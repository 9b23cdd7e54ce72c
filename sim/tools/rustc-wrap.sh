#!/bin/bash
# RUSTC_WRAPPER: adds basic-block coverage callbacks to the system under test
# (and the real thread pool it uses), never to the simulator itself. "scen" holds the
# scenarios, but generic code of the system is instantiated there; blocks are
# counted only while code under test runs.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  zkstd|bn_254|grumpkin|zkgroth16|zknova|pallet_nova|zk_storage|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils|scen)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
