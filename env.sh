# Sourced: the environment every build and check runs in.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= MC_ROOT="$here" CARGO_TARGET_DIR="$here/target"
export RUSTFLAGS="--cap-lints=warn"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC RUSTC_WORKSPACE_WRAPPER
