#!/bin/bash
# replay.sh FILE: runs a recorded violation again, against /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "$here/target/debug/dao-sim" replay "$1"
