#!/bin/bash
set -e
cd "$(dirname "$0")/.."
(cd vx && cargo build --offline)
(cd replay && cargo build --offline)
python3 tools/overlay.py
