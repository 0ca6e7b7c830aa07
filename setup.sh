#!/bin/sh
# nothing to build ahead: every check extracts, verifies and compiles from /repo's current tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
verus --version | head -1
clang++ --version | head -1
python3 -c 'import sys; print(sys.version)'
