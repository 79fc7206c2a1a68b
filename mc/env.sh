# Sourced by the check runner: toolchain and cargo settings (no network).
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.86.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export OPENBLAS_NUM_THREADS=1
export CARGO_TARGET_DIR=/verif/mc/target
export PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3
