#!/bin/bash
# run in the repository root after the build; exit 0 when the property holds.
# The protox crate needs well-known .proto files that the repository keeps in an empty submodule:
# build a copy of its sources with empty stand-ins for them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/px" "$work/demo/src" && cp -r "$repo/protox/src" "$work/px/src" && cp "$here/demo.rs" "$work/demo/src/main.rs" || exit 3
python3 - "$repo" "$work/px" <<'P' || exit 3
import os, re, sys
repo, px = sys.argv[1:3]
for n in re.findall(r'include_proto!\("([^"]+)"\)', open(repo + '/protox/src/file/google.rs').read()):
    f = px + '/protobuf/src/google/protobuf/' + n
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, 'w').close()
t = open(repo + '/protox/Cargo.toml').read()
t = t.split('[dev-dependencies]')[0].replace('path = "../protox-parse"', f'path = "{repo}/protox-parse"')
t = t.replace('readme = "../README.md"\n', '')
t = re.sub(r'\[\[bin\]\].*?\n\n', '', t, flags=re.S)
open(px + '/Cargo.toml', 'w').write(t)
P
cat > "$work/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
protox = { path = "$work/px", default-features = false }
prost-types = "0.13"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/demo/Cargo.lock"
cd "$work/demo" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 3; }
mkdir "$work/run" && cd "$work/run" && timeout 60 "$work/target/debug/demo"
