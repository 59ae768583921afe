export RUSTUP_TOOLCHAIN=nightly-2019-01-15 PATH=/root/.cargo/bin:$PATH CARGO_HOME=/verif/build/cargo-home CARGO_TARGET_DIR=/verif/build/harness CARGO_NET_OFFLINE=true RUSTC_WRAPPER=; unset RUSTFLAGS RUSTC
