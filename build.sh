# Sourced by check.sh and setup.sh.
# cargo notices changes by mtime, so a source file put back with an old mtime would be missed:
# the fingerprints of everything compiled from /repo are dropped first.
forget() {
  local f
  for f in "$1"/release/.fingerprint/cafebabe-* "$1"/release/.fingerprint/cafebabe_ts-* "$1"/debug/.fingerprint/cafebabe_ts-*; do
    [ -e "$f" ] && rm -rf "$f"
  done
}
# The input explorer, with both builds of the crate if both compile. 0: both; 3: only the default one; 1: neither.
build_mc() {
  local t="$CARGO_TARGET_DIR/mc" log="$here/out/build-mc.log"
  forget "$t"
  cargo build --release --offline --locked --quiet --manifest-path "$here/mc/Cargo.toml" --target-dir "$t" >"$log" 2>&1 && return 0
  cp "$log" "$here/out/build-mc-threadsafe.log"
  cargo build --release --offline --locked --quiet --manifest-path "$here/mc/Cargo.toml" --target-dir "$t" --no-default-features >"$log" 2>&1 && return 3
  cat "$log" >&2
  return 1
}
# Compiles only if everything parsed can be shared and sent between threads.
build_traits() {
  local t="$CARGO_TARGET_DIR/traits"
  forget "$t"
  cargo check --offline --locked --quiet --manifest-path "$here/sched/traits/Cargo.toml" --target-dir "$t" >"$here/out/build-traits.log" 2>&1
}
# The schedule explorer needs the nightly compiler's sanitizer pass.
build_sched() {
  local t="$CARGO_TARGET_DIR/sched" log="$here/out/build-sched.log"
  forget "$t"
  RUSTFLAGS= RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$here/sched/wrap.sh" \
    cargo build --release --offline --locked --quiet --manifest-path "$here/sched/Cargo.toml" --target-dir "$t" >"$log" 2>&1 || {
    cat "$log" >&2
    return 1
  }
}
