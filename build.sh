#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh OUTDIR -> OUTDIR/simbin.
# RACE=1 has the race detector watch the simulated runs (C25).
# The overlay, go.mod copy and binary go to OUTDIR; /repo is only read.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="${REPO:-/repo}"
out="$1"
mkdir -p "$out" "$here/.build"
export GOFLAGS=-mod=mod
(cd "$here/tools/mkoverlay" && go build -o "$out/mkoverlay" .)
"$out/mkoverlay" -repo "$repo" -verif "$here" -out "$out"
race=
if [ "$RACE" = 1 ]; then
  race=-race
  export CGO_ENABLED=1
fi
(cd "$repo" && go build $race -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/simbin" ./internal/verifsim)
