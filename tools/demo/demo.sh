#!/bin/sh
# run with cwd = the repository: builds the small program beside this script against it and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"; cp "$here/Cargo.lock.txt" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "nd"
version = "0.1.0"
edition = "2021"
resolver = "1"
[dependencies]
cv-core = { path = "$repo/cv-core", features = ["serde-serialize"] }
nister-stewenius = { path = "$repo/nister-stewenius" }
eight-point = { path = "$repo/eight-point" }
lambda-twist = { path = "$repo/lambda-twist" }
cv-geom = { path = "$repo/cv-geom" }
cv-pinhole = { path = "$repo/cv-pinhole", features = ["serde-serialize"] }
cv-optimize = { path = "$repo/cv-optimize" }
rand = "0.8"
serde_json = "1"
bincode = "1"
log = "0.4"
num-traits = { version = "0.2", features = ["std", "libm"] }
[dependencies.nalgebra]
version = "0.30.1"
features = ["rand"]
[workspace]
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run --offline -q || exit 1
