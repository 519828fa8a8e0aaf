#!/bin/bash
# verify_seed.sh <id>: confirms in a scratch copy of /repo that a planted bug compiles, passes the tests,
# and is shown by its demonstration; then runs the check of its property against it in /repo itself.
set -u
id="$1"
seed="/verif/seeded/$id"
prop="$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")"
w="$(mktemp -d /tmp/seed-XXXXXX)"
trap 'rm -rf "$w"' EXIT
git -C /repo worktree prune
mkdir "$w/repo" && git -C /repo archive HEAD | tar -x -C "$w/repo"
cp -r "$seed" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo"
export RUST_BACKTRACE=0 HOME=/root PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -n 20 "$w/clean.log" | cut -c1-200 | head -12; exit 1; }
git init -q . && git apply "$seed/patch.diff" || { echo "$id: does not apply"; exit 1; }
cargo test --offline -q --no-fail-fast -- --skip parse_success >"$w/test.log" 2>&1 || { echo "$id: tests fail"; grep -A3 "panicked at" "$w/test.log" | head -12; exit 1; }
timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
echo "$id: valid ($(tail -1 "$w/bug.log" | cut -c1-150))"
if [ "${2:-}" != nocheck ]; then
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$seed/patch.diff"
  for p in ${2:-$prop}; do
    (cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh "$p" quick) >"$w/check.log" 2>&1
    rc=$?
    echo "   $p exit $rc: $(grep -v '^warning' "$w/check.log" | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -- .
fi
