#!/bin/bash
# check.sh PROPERTY [thorough]: builds the simulator from /repo's working tree and searches
# for a run that breaks the property. Exit 0: none found; 1: VIOLATION; 2: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
[ "$1" = C25 ] && export RACE=1
if ! bash "$here/build.sh" "$out" >"$out/build.log" 2>&1; then
  tail -40 "$out/build.log"
  echo "the simulator does not build from this tree"
  exit 2
fi
export VERIF_DIR="$here"
[ -n "$2" ] && export VERIF_TIER="$2"
"$out/simbin" check "$1"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
