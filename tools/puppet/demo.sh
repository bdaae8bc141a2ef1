#!/bin/bash
# Builds the demonstration against the crate in the current directory and runs it: one real node,
# whose peers, application, log and keys are played by scenario.rs. Exit 0: behaves as it should.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap '/bin/rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/puppet.rs" "$w/src/puppet.rs"
cp "$here/scenario.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<TOML
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
overlord = { path = "$repo", features = [$(cat "$here/features" 2>/dev/null)] }
async-trait = "0.1"
bytes = "1"
futures = "0.3"
rlp = "0.5"
serde_json = "1.0"
tokio = { version = "1.19", features = ["macros", "rt-multi-thread", "time"] }
[profile.dev]
debug = 0
TOML
cd "$w" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
cargo build --offline >"$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
