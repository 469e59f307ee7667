#!/bin/bash
# Builds the symbolic executor and the dependencies; the checks rebuild what they need themselves.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=.work/engine cargo build -q --release --offline --manifest-path engine/Cargo.toml
python3 - <<'P'
import json
json.load(open("MANIFEST.json")); json.load(open("known-findings.json"))
P
