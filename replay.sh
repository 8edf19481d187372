#!/bin/bash
# replay.sh FILE [-v]: builds the simulator from /repo's working tree and runs the
# recorded case again. Exit 1 and the violation when it fails as recorded.
here="$(cd "$(dirname "$0")" && pwd)"
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
grep -q '"property": *"C25"' "$1" && export RACE=1
if ! bash "$here/build.sh" "$out" >"$out/build.log" 2>&1; then
  tail -40 "$out/build.log"
  exit 2
fi
export VERIF_DIR="$here"
"$out/simbin" replay "$@"
