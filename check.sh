#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working
# tree and runs the property's simulations. Exit 0 held, 1 violated.
HERE=$(cd "$(dirname "$0")" && pwd)
BIN=$("$HERE/sim/build.sh") || { echo "cannot build the simulation of /repo"; exit 2; }
exec "$BIN" check -prop "$1" -tier "${2:-quick}" -dir "$HERE"
