#!/bin/bash
# Builds the whole harness once, offline (every check rebuilds what it needs from /repo by itself).
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
cargo build --offline --locked --manifest-path mc/Cargo.toml --bins 2>&1 | tail -3
[ "${PIPESTATUS[0]}" -eq 0 ] || exit 2
cargo build --offline --locked --manifest-path mc/Cargo.toml --release --bins 2>&1 | tail -3
[ "${PIPESTATUS[0]}" -eq 0 ] || exit 2
(. ct/flags.sh; cargo build --offline --locked --manifest-path ct/Cargo.toml --target x86_64-unknown-linux-gnu --bins 2>&1 | tail -3; exit "${PIPESTATUS[0]}") || exit 2
(. il/flags.sh; cargo build --offline --locked --manifest-path il/Cargo.toml --target x86_64-unknown-linux-gnu --bins 2>&1 | tail -3; exit "${PIPESTATUS[0]}") || exit 2
exec mc/target/debug/selftest
