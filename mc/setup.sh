#!/bin/bash
# Builds the harness and the Python extension once (checks rebuild what changed in /repo).
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
cargo build --release --offline || exit 2
cd ../py && cargo build --release --offline
