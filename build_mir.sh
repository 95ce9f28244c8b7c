#!/bin/bash
# Dumps the MIR of the specification crate and of everything it reaches in /repo's current tree.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$V/build}
mkdir -p $B
[ -x $B/mirdump ] && [ $B/mirdump -nt $V/mirdump/main.rs ] || $V/mirdump/build.sh $B/mirdump
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WRAPPER=$B/mirdump MIRDUMP_CRATE=auburn_specs MIRDUMP_OUT=$B/mir.json
rm -f $B/mir.json
touch $V/specs/src/lib.rs
cd $V/specs
cargo build --lib --offline --target-dir $B/mirtarget
test -s $B/mir.json
