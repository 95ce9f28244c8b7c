#!/bin/bash
# builds mirdump into $1
set -e
cd "$(dirname "$0")"
NB=$(rustup +nightly which rustc 2>/dev/null || rustup which --toolchain nightly rustc)
$NB --edition 2021 -O main.rs -o "$1" 2>&1
