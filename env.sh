# Toolchain environment for the harness (sourced)
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
