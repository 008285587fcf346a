#!/bin/bash
# Nothing to install: checks build their monitors from /repo themselves. Verify the toolchain answers offline.
. /opt/vp/env.sh >/dev/null 2>&1
set -e
cd "$(dirname "$0")"
cargo --version
rustc --version
python3 --version
test -f harness/Cargo.toml && test -f check.py
