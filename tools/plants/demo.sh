#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it; everything stays in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ipmb = { path = "$repo/ipmb" }
libc = "0.2"
serde = "1"
serde_bytes = "0.11"
type-uuid = "0.1.2"
[workspace]
T
cd "$t" || exit 99
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> build.log || { cat build.log >&2; exit 98; }
timeout 200 "$t/target/debug/demo"
