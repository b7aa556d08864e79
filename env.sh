export HOME=/root
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH
export RUSTUP_TOOLCHAIN=nightly-2023-12-06
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
