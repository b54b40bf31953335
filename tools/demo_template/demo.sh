#!/bin/bash
# Builds demo.rs (next to this script) against the library in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
box2d-rs = { path = "$repo", features = ["serde_support"] }
serde = { version = "1", features = ["derive"] }
serde_json = { version = "1", features = ["float_roundtrip"] }
[profile.dev]
debug = false
[workspace]
TOML
cp /opt/vp/Cargo.lock "$t/Cargo.lock" 2>/dev/null
cargo build --offline --quiet --manifest-path "$t/Cargo.toml" --target-dir "$t/target" > "$t/log" 2>&1 || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
