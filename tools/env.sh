# Sourced by every script here. Same toolchain as /opt/vp/build.sh, own target directory.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2024-09-04
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYO3_PYTHON=/usr/bin/python3.12 PYTHONDONTWRITEBYTECODE=1
export VERIF=/verif
export CARGO_TARGET_DIR=/verif/target/main
# planted or refactored code may warn; the workspace denies warnings
export RUSTFLAGS="--cap-lints warn"
