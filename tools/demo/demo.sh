#!/bin/bash
# Run in the repository: exits 0 if the property holds there, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$here/cam.rs" "$work/src/" || exit 2
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mlx9064x = { path = "$repo/mlx9064x" }
mlx9064x-test-data = { path = "$repo/mlx9064x-test-data" }
embedded-hal = "0.2.5"
TOML
cd "$work" || exit 2
timeout 240 cargo run --offline --quiet
