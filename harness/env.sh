export RUSTFLAGS="--cfg paladin_verif --cfg tokio_unstable"
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
