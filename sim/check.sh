#!/bin/bash
# usage: check.sh check ID | replay FILE | determinism N [ID] | show ID N
here="$(cd "$(dirname "$0")/.." && pwd)"
if ! bash "$here/sim/build.sh"; then
  echo "error: build failed" >&2
  exit 3
fi
export VSIM_HOME="$here"
exec "$here/target/vsim/vsim" "$@"
