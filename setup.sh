#!/bin/bash
# Builds the MIR front end once, to fail early when a tool is missing; every check builds its own copy again.
set -e
cd "$(dirname "$0")/mirdump"
CARGO_TARGET_DIR=../.build/setup cargo +nightly build --release --offline
python3-vt -c 'import z3'
