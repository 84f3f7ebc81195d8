#!/bin/bash
# prebuilds the extraction tool, the expansion of the crates and the replay crates (each check rebuilds what changed)
cd "$(dirname "$0")/.." || exit 1
exec python3 tools/setup.py
