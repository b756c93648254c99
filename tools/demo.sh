#!/bin/bash
# Builds and runs main.rs (beside this file) against the crate in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d /tmp/demo.XXXXXX)" || exit 1
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
llm-samplers = { path = "$repo" }
rand = "0.8"
anyhow = "1"
[profile.dev]
debug = 0
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" timeout 250 cargo run --offline --quiet
