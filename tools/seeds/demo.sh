#!/bin/bash
# Run in the repository after its build: exit 0 when the property holds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
ratel-visitor = { path = "$repo/ratel-visitor" }
ratel-transformer = { path = "$repo/ratel-transformer" }
serde_json = "1"
toolshed = "0.4"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" cargo build --release --offline -q 2> "$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/release/demo"
