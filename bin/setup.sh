#!/bin/bash
# Builds every driver once (checks build what they need themselves).
cd "$(dirname "$0")/../harness" && CARGO_NET_OFFLINE=true cargo build --offline -q
