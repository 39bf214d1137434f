#!/bin/bash
# Regenerates wraps/*/Cargo.toml: packages whose library source is the code in /repo.
cd "$(dirname "$0")"
w(){ n=$1; path=$2; shift 2; mkdir -p wraps/$n
{ cat <<T
[package]
name = "$n"
version = "0.0.0"
edition = "2021"
publish = false

[lib]
path = "$path"
doctest = false

[features]
default = ["std"]
std = []
runtime-benchmarks = []
try-runtime = []
test = []
frequency = []
frequency-local = []
frequency-no-relay = []
frequency-testnet = []
frequency-lint-check = []

[dependencies]
T
for d in "$@"; do case $d in
 codec) echo 'parity-scale-codec = { path = "../../shims/parity-scale-codec" }';;
 serde) echo 'serde = { version = "1", features = ["derive"] }';;
 serde_json) echo 'serde_json = "1"';;
 log) echo 'log = "0.4"';;
 smallvec) echo 'smallvec = "1"';;
 twox-hash) echo 'twox-hash = { version = "1.6", default-features = false, features = ["digest_0_10"] }';;
 handles-utils) echo 'handles-utils = { path = "/repo/pallets/handles/src/handles-utils", default-features = false }';;
 common-*|pallet-msa|pallet-handles|pallet-schemas|pallet-messages|pallet-capacity|pallet-frequency-tx-payment|pallet-time-release|pallet-passkey|pallet-stateful-storage) echo "$d = { path = \"../$d\" }";;
 *) echo "$d = { path = \"../../shims/$d\" }";;
esac; done
echo; echo '[lints.rust]'; echo 'warnings = "allow"'; } > wraps/$n/Cargo.toml; }
B="codec scale-info frame-support frame-system sp-core sp-io sp-runtime sp-std log"
P=/repo/pallets
w common-primitives /repo/common/primitives/src/lib.rs $B impl-serde serde serde_json enumflags2 smallvec sp-api numtoa
w pallet-handles $P/handles/src/lib.rs $B numtoa common-primitives handles-utils
w pallet-msa $P/msa/src/lib.rs $B sp-weights common-primitives serde serde_json hex
w pallet-schemas $P/schemas/src/lib.rs $B numtoa serde_json smallvec sp-weights common-primitives
w pallet-messages $P/messages/src/lib.rs $B common-primitives cid multibase
w pallet-stateful-storage $P/stateful-storage/src/lib.rs $B twox-hash common-primitives
w pallet-capacity $P/capacity/src/lib.rs $B common-primitives
w pallet-time-release $P/time-release/src/lib.rs $B
w pallet-frequency-tx-payment $P/frequency-tx-payment/src/lib.rs $B pallet-capacity pallet-msa pallet-transaction-payment common-primitives
w pallet-passkey $P/passkey/src/lib.rs $B pallet-transaction-payment common-primitives common-runtime
w common-runtime src/lib.rs $B common-primitives smallvec sp-weights pallet-balances pallet-transaction-payment cumulus-primitives-core serde
