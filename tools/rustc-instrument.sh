#!/bin/bash
# rustc wrapper: reports loads, stores and atomic operations of the crates in /repo to the scheduler in mc/src/sys.rs
rustc="$1"; shift
case "$CARGO_MANIFEST_DIR $*" in
  *build_script_build*) exec "$rustc" "$@" ;;
  /repo/*) exec "$rustc" "$@" "-Cpasses=tsan-module,function(tsan),sancov-module" -Cllvm-args=-sanitizer-coverage-level=1 \
     -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
