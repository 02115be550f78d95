#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test with compiler-inserted callbacks for atomic
# operations (nothing else of ThreadSanitizer is used), everything else unchanged.
rustc="$1"; shift
case " $* " in
  *" --crate-name polling "*)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
  *" --crate-name pollharness "*)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac
