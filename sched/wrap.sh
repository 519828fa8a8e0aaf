#!/bin/sh
# rustc wrapper: every crate except the scheduler's runtime is compiled so that its atomic
# operations become calls of that runtime (the compiler's thread sanitizer pass, atomics only).
rustc="$1"
shift
case " $* " in
*" --crate-name rt "*) exec "$rustc" "$@" --cap-lints=warn -Cunsafe-allow-abi-mismatch=sanitizer ;;
*" --crate-name "*) exec "$rustc" "$@" --cap-lints=warn -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
  -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
*) exec "$rustc" "$@" ;;
esac
