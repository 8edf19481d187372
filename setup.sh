#!/bin/bash
# Builds the simulator once, which fills the Go build cache for the checks.
cd "$(dirname "$0")" || exit 1
out=$(mktemp -d) || exit 1
bash ./build.sh "$out"; rc=$?
rm -rf "$out"
exit $rc
