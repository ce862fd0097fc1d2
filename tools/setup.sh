#!/bin/bash
# Everything is built by each check from /repo's working tree; this only verifies that the tools are there.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
for t in clang clang++ make objcopy ld nm awk; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
