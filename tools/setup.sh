#!/bin/bash
# builds the extractor and the replay harness (the checks rebuild both themselves when needed)
cd "$(dirname "$0")/.."
(cd extract && cargo build --offline -q) || exit 1
(cd harness && RUSTFLAGS=-Ctarget-cpu=x86-64 cargo build --offline -q) || exit 1
python3 tools/lowered.py 0.2 > /dev/null 2>&1 || true
exit 0
