#!/bin/bash
# cwd: the repository. Exit 0 if the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
hacspec-dev = { path = "$repo/hacspec-dev" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
[workspace]
[profile.dev]
debug = 0
opt-level = 1
debug-assertions = true
overflow-checks = true
EOF
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q --manifest-path "$work/Cargo.toml" || exit 2
exec 3< /dev/null
"$work/target/debug/demo" <&3
