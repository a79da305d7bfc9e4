#!/bin/bash
# check.sh PROPERTY [mc options]: rebuild from /repo and decide the property
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$(cd "$HERE/.." && pwd)
case "$1" in C14|C16|C17) D=race;; *) D=rel;; esac
V=${MC_VARIANT:-$D}
bash "$HERE/build.sh" $V >&2 || { echo "build failed" >&2; exit 2; }
export ASAN_OPTIONS=detect_leaks=0:handle_segv=0:handle_abort=0:abort_on_error=1:detect_stack_use_after_return=0 UBSAN_OPTIONS=abort_on_error=1:print_stacktrace=1
cd "$VERIF_DIR"
exec "${MC_OUT:-$VERIF_DIR/.build}/$V/mc" "$@"
