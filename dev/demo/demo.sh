#!/bin/bash
# Builds the math crate of the current directory's tree against a small stand-in for sp-arithmetic and runs main.rs against it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/math" "$t/src"
cp -r math/src "$t/math/src"
cp -r "$here/sp-arithmetic" "$here/sp-std" "$t/"
cp "$here/math.Cargo.toml" "$t/math/Cargo.toml"
cp "$here/demo.Cargo.toml" "$t/Cargo.toml"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$t/"
cd "$t"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline --quiet --release 
timeout 120 ./target/release/demo
