# environment for building and running the harness; sourced by check.sh and setup.sh
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
