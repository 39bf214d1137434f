#!/bin/bash
cd "$(dirname "$0")"
for p in "$@"; do echo "=== $p"; cargo check -p $p 2>&1 | grep -E '^error' -A11 | head -${N:-80}; done
