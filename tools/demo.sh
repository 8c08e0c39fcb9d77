#!/bin/bash
# Builds demo.rs (beside this script) against the vatsim-parser in the current directory and runs it.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vatsim-parser = { path = "$repo" }
geo = { version = "0.33", features = ["use-serde"] }
serde_json = "1"
toml = "1"
uom = { version = "0.38", features = ["serde"] }
multimap = "0.10.0"
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q 2>"$d/log" || { tail -40 "$d/log"; exit 2; }
cp "$repo/target/debug/demo" "$d/demo"
cd "$d/scratch" && timeout 120 "$d/demo"
