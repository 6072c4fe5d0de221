export RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
