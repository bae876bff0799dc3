#!/bin/bash
# Fills the object cache from /repo's tree (only an accelerator: every check rebuilds what it needs).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
python3 tools/build.py
