#!/bin/bash
# Builds the harness from the committed files, offline.
set -e
cd "$(dirname "$0")/harness"
cargo build --offline -q 2>&1 | tail -40 >&2
cargo build --offline -q --features cli --target-dir target/cli 2>&1 | tail -40 >&2
exit 0
