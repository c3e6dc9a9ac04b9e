#!/bin/bash
# Checks that the tools work; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
cargo kani --version
mkdir -p .build evidence
