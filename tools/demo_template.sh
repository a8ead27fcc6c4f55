#!/bin/bash
# Builds demo.rs against the kompact sources in the current directory and runs it: exit 0 if it behaves as documented.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS RUSTC_WRAPPER
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d /tmp/kdemo.XXXXXX)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kompact = { path = "$R/core", features = ["distributed", "serde_support", "type_erasure"] }
kompact-net = { path = "$R/network" }
TOML
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q || exit 3
timeout "${DEMO_TIMEOUT:-120}" "$T/target/debug/demo"
