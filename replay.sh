#!/bin/bash
# replay.sh <replay file>: run a recorded violation again; exit 1 if it reproduces exactly
here=$(cd "$(dirname "$0")" && pwd)
"$here/check.sh" --build-only || exit 2
exec "$here/sim/target/debug/mcsim" replay "$1"
