export PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=/verif/sim/rustc_wrapper.sh
unset RUSTFLAGS
