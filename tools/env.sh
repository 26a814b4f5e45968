# Offline build settings shared by the checks.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export CARGO_TERM_COLOR=never
