#!/bin/bash
# builds the harness against /repo (checks rebuild it from the current tree themselves)
cd "$(dirname "$0")/../harness" && CARGO_TARGET_DIR="$PWD/target" cargo build --offline -q
