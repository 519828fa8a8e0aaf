#!/bin/bash
# check.sh <property> <tier>: builds the checkers from /repo's working tree and runs one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
. "$here/build.sh"
prop="$1"
tier="${2:-quick}"
mkdir -p "$here/out" "$here/evidence"

# A violation the compiler found; $1 what, $2 the log.
compiler_says() {
  echo "$1"
  printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["%s"]}, "wall_s": %s, "violations": 1}\n' \
    "$prop" "$tier" "${VERIF_SEED:-1}" "$1" "$SECONDS" >"$here/evidence/$prop.json"
  echo "VIOLATION property=$prop replay=$2"
  exit 1
}

if [ "$prop" = C21 ]; then
  if ! build_traits; then
    if grep -q '^error\[E0277\].*cannot be \(sent\|shared\) between threads' "$here/out/build-traits.log"; then
      compiler_says "a parsed class or error cannot be shared or sent between threads" "$here/out/build-traits.log"
    fi
    build_mc
    [ $? = 3 ] && compiler_says "the thread-safe build does not compile, the other one does" "$here/out/build-mc-threadsafe.log"
    cat "$here/out/build-traits.log" >&2
    exit 2
  fi
  build_sched || exit 2
  exec "$CARGO_TARGET_DIR/sched/release/sched" run "$tier"
fi

build_mc
case $? in
0) ;;
3)
  [ "$prop" = C20 ] && compiler_says "the thread-safe build does not compile, the other one does" "$here/out/build-mc-threadsafe.log"
  ;;
*) exit 2 ;;
esac
exec "$CARGO_TARGET_DIR/mc/release/mc" run "$prop" "$tier"
