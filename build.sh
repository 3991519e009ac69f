#!/bin/bash
# Builds the simulator and, through its path dependencies, the contracts of /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/target"
out="$(cargo build --offline --locked 2>&1)" || { echo "$out" | tail -40 >&2; exit 2; }
