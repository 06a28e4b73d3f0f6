export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=$(dirname "$(realpath "${BASH_SOURCE[0]}")")/wrapper.sh CARGO_TARGET_DIR=$(dirname "$(realpath "${BASH_SOURCE[0]}")")/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS DETERMINISTIC_TEST_RNG RAYON_NUM_THREADS
