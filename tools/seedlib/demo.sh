#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/scratch"
cp "$here/main.rs" "$here/pb.rs" "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
osmpbf = { path = "$repo" }
flate2 = { version = "1", default-features = false, features = ["rust_backend"] }
T
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" SCRATCH="$tmp/scratch"
cargo build --offline -q 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 2; }
"$tmp/target/debug/demo"
