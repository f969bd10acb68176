# shared by all the commands in /verif
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings"
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/target}
