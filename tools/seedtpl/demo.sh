#!/bin/bash
# run in the repository root after the build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 3
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
protox-parse = { path = "$repo/protox-parse" }
prost-types = "0.13"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
