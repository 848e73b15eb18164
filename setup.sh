#!/bin/bash
# Builds the simulator once, so that the checks need not start from nothing.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness"
cargo build --release --offline --locked
