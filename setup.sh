#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo's working tree.
mkdir -p "$(dirname "$0")/evidence"
for t in g++ python3 addr2line objcopy; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
