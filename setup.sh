#!/bin/bash
# Builds the harness once so that a broken toolchain shows early; every check builds again what it needs.
set -e
cd "$(dirname "$0")/harness"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --release --offline
