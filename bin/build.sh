#!/bin/bash
# Builds the simulator with the instrumented library from /repo's working tree.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_BOOTSTRAP=1
export RUSTC_WRAPPER="$here/bin/rustc-wrap.sh"
export RUSTFLAGS="" CARGO_ENCODED_RUSTFLAGS=""
unset CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/target}"
cd "$here/sim"
exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
