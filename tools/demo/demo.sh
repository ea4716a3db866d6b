#!/bin/bash
# Builds main.rs (beside this file) against the fitsrs in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/wcs/src"
cp "$here/main.rs" "$here/fitsw.rs" "$d/src/"
cp "$here/Cargo.lock" "$d/"
cat > "$d/wcs/Cargo.toml" <<T
[package]
name = "wcs"
version = "0.5.0"
edition = "2021"
[dependencies]
serde = { version = "1", features = ["derive"] }
T
# stand-in for a git dependency that cannot be fetched offline
cat > "$d/wcs/src/lib.rs" <<T
pub mod error { #[derive(Debug)] pub struct Error; }
#[derive(Debug, serde::Deserialize)] pub struct WCSParams {}
#[derive(Debug)] pub struct WCS;
#[derive(Debug)] pub struct ImgXY;
#[derive(Debug)] pub struct LonLat;
impl WCS { pub fn new(_: &WCSParams) -> Result<WCS, error::Error> { Ok(WCS) } }
T
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fitsrs = { path = "$repo", features = ["image"] }
fits-cli = { path = "$repo/crates/cli" }
futures = "0.3.31"
flate2 = "1.0.35"
serde = { version = "1.0.152", features = ["derive"] }
serde_json = "1"
image = { version = "0.25.10", default-features = false }
[patch."https://github.com/cds-astro/wcs-rs"]
wcs = { path = "wcs" }
T
cd "$d" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout 100 ./target/debug/demo
