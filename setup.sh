#!/bin/bash
# Builds the monitor against /repo (each check rebuilds what changed).
set -e
cd "$(dirname "$0")/monitor"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
CARGO_TARGET_DIR=target cargo build --offline
CARGO_TARGET_DIR=target/ea cargo build --offline --features ea_real
