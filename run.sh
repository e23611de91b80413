#!/bin/bash
# ./run.sh ID : build the check for ID against /repo's working tree and run it.
# exit 0 held / 1 violation / anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
id=$1
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=mc/target/build-$bin.log
mkdir -p mc/target
what="--manifest-path mc/Cargo.toml --bin $bin"
exe=mc/target/debug/$bin
[ "$bin" = c31 ] && what="--manifest-path mc/Cargo.toml --bins"   # listens to the drivers of all checks
if [ "$bin" = c32 ] || [ "$bin" = c33 ]; then   # compiled with coverage callbacks, entropy under control
  . ct/flags.sh
  what="--manifest-path ct/Cargo.toml --target x86_64-unknown-linux-gnu --bin $bin"
  exe=ct/target/x86_64-unknown-linux-gnu/debug/$bin
fi
if [ "$bin" = c35 ]; then   # every memory access under a controlled scheduler
  . il/flags.sh
  what="--manifest-path il/Cargo.toml --target x86_64-unknown-linux-gnu --bin $bin"
  exe=il/target/x86_64-unknown-linux-gnu/debug/$bin
fi
if [ "$bin" = c34 ]; then   # the drivers of the other checks in a release build
  if ! cargo build --offline --locked --manifest-path mc/Cargo.toml --release --bins >"$log" 2>&1; then
    grep -aE -A8 '^error' "$log" | head -60 >&2
    echo "ERROR: the release harness does not build against /repo" >&2
    exit 2
  fi
fi
if ! cargo build --offline --locked $what >"$log" 2>&1; then
  grep -aE -A8 '^error' "$log" | head -60 >&2
  echo "ERROR: the harness for $id does not build against /repo" >&2
  exit 2
fi
exec "$exe"
