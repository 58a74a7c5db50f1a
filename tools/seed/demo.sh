#!/bin/bash
# Builds and runs the demonstration against the crate in the current directory.
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.96-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
export TMPDIR=$d
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/kit.rs" "$d/src/kit.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rekordcrate = { path = "$repo" }
binrw = "*"
fallible-iterator = "*"
quick-xml = { version = "*", features = ["serialize"] }
EOT
export CARGO_TARGET_DIR=$d/target
if grep -q "tool(" "$d/src/main.rs"; then
    cargo build -q --offline --manifest-path "$repo/Cargo.toml" --bin rekordcrate || exit 3
    export TOOL=$d/target/debug/rekordcrate
fi
cargo build -q --offline --manifest-path "$d/Cargo.toml" || exit 3
timeout 60 "$d/target/debug/demo"
