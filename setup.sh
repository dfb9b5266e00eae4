#!/bin/sh
# Nothing is built ahead of time: every check encodes /repo's current sources itself.
# This only verifies that the installed tools the checks need are there.
set -e
for t in cbmc goto-cc goto-instrument gcc clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cbmc --version
mkdir -p evidence out
