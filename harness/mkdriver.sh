#!/bin/bash
# mkdriver.sh NAME wrap...  : writes d-NAME/Cargo.toml
cd "$(dirname "$0")"
n=$1; shift
mkdir -p d-$n/src
{ cat <<X
[package]
name = "d-$n"
version = "0.0.0"
edition = "2021"
publish = false
[dependencies]
drv = { path = "../drv" }
cfgs = { path = "../cfgs" }
mini = { path = "../mini" }
serde_json = "1"
X
for s in frame-support frame-system sp-core sp-runtime parity-scale-codec scale-info; do echo "$s = { path = \"../shims/$s\" }"; done
for w in "$@"; do case $w in
 handles-utils) echo 'handles-utils = { path = "/repo/pallets/handles/src/handles-utils" }';;
 pallet-balances|pallet-transaction-payment|pallet-utility|sp-weights|sp-io) echo "$w = { path = \"../shims/$w\" }";;
 *) echo "$w = { path = \"../wraps/$w\" }";; esac; done
echo '[lints.rust]'; echo 'warnings = "allow"'; } > d-$n/Cargo.toml
