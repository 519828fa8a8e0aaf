#!/bin/bash
# setup.sh: builds the checkers from the committed files and /repo's working tree, offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
. "$here/build.sh"
mkdir -p "$here/out" "$here/evidence"
build_mc
[ $? = 1 ] && exit 2
# what the compiler finds wrong with the thread-safe build is for the checks to report
build_traits && { build_sched || exit 2; }
exit 0
