#!/bin/bash
# Builds the contracts for native execution against /repo's current tree.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$V/build}
mkdir -p $B
export CARGO_NET_OFFLINE=true
touch $V/specs/src/lib.rs
cd $V/specs
cargo build --release --bin native --offline --target-dir $B/nativetarget
cp $B/nativetarget/release/native $B/native.new && mv $B/native.new $B/native
