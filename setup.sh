#!/bin/bash
# Builds the MIR dumper, the contracts' MIR and the native runner (every check builds them again by itself).
set -e
cd "$(dirname "$0")"
python3 vc/registry.py
./build_mir.sh
./build_native.sh
