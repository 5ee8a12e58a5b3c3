#!/bin/bash
# cwd: /repo. Builds the program beside this script against the tree in cwd.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rgb-std = { path = "$R", features = ["all"] }
rgb-invoice = { path = "$R/invoice" }
rgb-core = "0.11.0-beta.9"
bp-core = "0.11.0-beta.9"
commit_verify = "0.11.0-beta.9"
strict_encoding = "2.7.0"
strict_types = "2.7.2"
amplify = "4.7.0"
nonasync = "0.1.0"
[workspace]
X
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$R/target" cargo run --offline -q
