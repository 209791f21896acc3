#!/bin/bash
# Builds the simulation of /repo's current working tree. Prints the path of the
# binary. Results are kept under /verif/.cache by a hash of everything that went
# in; /repo is only read.
set -e
. /opt/vp/env.sh
export CGO_ENABLED=0
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
CACHE=${SIMCACHE:-$HERE/../.cache}
mkdir -p "$CACHE"
CACHE=$(cd "$CACHE" && pwd)
KEY=$( { cd "$REPO"; find . -path ./.git -prune -o -type f \( -name '*.go' -o -name '*.s' -o -name '*.h' -o -name 'go.*' \) -print0 | sort -z | xargs -0 sha256sum; cd "$HERE"; find . -type f -print0 | sort -z | xargs -0 sha256sum; go version; } | sha256sum | cut -c1-20)
BIN=$CACHE/$KEY/sim
if [ ! -x "$BIN" ]; then
  # Keep only a few old builds.
  ls -1t "$CACHE" | grep -v '^instr-' | tail -n +7 | while read -r d; do rm -rf "${CACHE:?}/$d"; done
  IKEY=$(cat "$HERE"/instr/* | sha256sum | cut -c1-16)
  INSTR=$CACHE/instr-$IKEY
  if [ ! -x "$INSTR" ]; then
    (cd "$HERE/instr" && go build -o "$INSTR.$$" . && mv "$INSTR.$$" "$INSTR") >&2
  fi
  W=$(mktemp -d /tmp/gosip-sim.XXXXXX)
  trap 'rm -rf "$W"' EXIT
  mkdir -p "$W/zsim"
  cp -r "$HERE"/zsim/. "$W/zsim/"
  printf 'module github.com/jart/gosip\n\ngo 1.21\n' >"$W/go.mod"
  (cd "$REPO" && "$INSTR" "$REPO" "$HERE/zsim" "$W" ./dialog ./rtp ./sip ./sdp ./util ./dsp) >&2
  (cd "$W" && go build -trimpath -o "$W/sim" ./zsim/harness) >&2
  mkdir -p "$CACHE/$KEY"
  mv "$W/sim" "$BIN.$$"
  mv "$BIN.$$" "$BIN"
fi
echo "$BIN"
