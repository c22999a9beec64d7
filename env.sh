# Sourced by the scripts: toolchain and build settings. Everything is built in /verif/target.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUST_BACKTRACE=0 RUSTFLAGS="--cap-lints allow"
export VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export CARGO_TARGET_DIR=$VERIF_ROOT/target
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
