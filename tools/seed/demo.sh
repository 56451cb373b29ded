#!/bin/bash
# Run in the repository: builds main.rs (beside this script) against it, in a scratch directory.
# Exit 0: the property holds on this example.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/.cargo" "$w/stubs/wcs/src" "$w/src"
# the wcs crate is not available offline: a stand-in, which nothing here uses
cat >"$w/.cargo/config.toml" <<END
[source."git+https://github.com/cds-astro/wcs-rs?branch=master"]
git = "https://github.com/cds-astro/wcs-rs"
branch = "master"
replace-with = "wcs-stub"
[source.wcs-stub]
directory = "$w/stubs"
END
cat >"$w/stubs/wcs/Cargo.toml" <<END
[package]
name = "wcs"
version = "0.4.0"
edition = "2021"
[dependencies]
serde = { version = "1", features = ["derive"] }
END
echo '{"files":{},"package":null}' >"$w/stubs/wcs/.cargo-checksum.json"
cat >"$w/stubs/wcs/src/lib.rs" <<END
use serde::Deserialize;
pub mod error {
    #[derive(Debug)]
    pub enum Error { Unavailable }
}
#[derive(Debug, Clone, Copy)]
pub struct ImgXY;
#[derive(Debug, Clone, Copy)]
pub struct LonLat;
#[derive(Debug, Clone, Deserialize)]
pub struct WCSParams {}
#[derive(Debug)]
pub struct WCS;
impl WCS {
    pub fn new(_p: &WCSParams) -> Result<Self, error::Error> { Err(error::Error::Unavailable) }
}
END
cat >"$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fitsrs = { path = "$repo", features = ["image"] }
futures = "0.3"
flate2 = "1"
image = { version = "0.25.10", default-features = false }
END
if [ -f "$here/cli" ]; then
  echo "fits-cli = { path = \"$repo/crates/cli\" }" >>"$w/Cargo.toml"
fi
cp "$here/main.rs" "$here/util.rs" "$w/src/" || exit 3
cp "$here/Cargo.lock" "$w/" 2>/dev/null
cd "$w" || exit 3
cargo build --offline -q 2>"$w/log" || { tail -40 "$w/log" >&2; exit 3; }
timeout 100 target/debug/demo
