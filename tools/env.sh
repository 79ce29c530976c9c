export HOME=/root
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
