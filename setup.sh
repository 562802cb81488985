#!/bin/bash
# Builds the verifier, the harness dependencies under it, and the native replay program.
set -e
D=$(cd "$(dirname "$0")" && pwd)
cd "$D"
export CARGO_NET_OFFLINE=true
( cd mirv && RUSTUP_TOOLCHAIN=nightly cargo build --release --offline )
exec python3 "$D/check.py" --setup
