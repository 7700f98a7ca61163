#!/bin/bash
# Run in /repo after the build: 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
scratch=$(mktemp -d) || exit 99
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
victor = { path = "$repo/victor" }
lester = { path = "$repo/lester" }
T
cd "$scratch"
export CARGO_TARGET_DIR="$scratch/target" CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
export REPO="$repo"
cargo build --offline --quiet 2>"$scratch/log" || { cat "$scratch/log"; exit 98; }
timeout 100 "$scratch/target/debug/demo"
