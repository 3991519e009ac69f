#!/bin/bash
# check.sh ID [quick|thorough]: exit 0 held, 1 with a VIOLATION line, 2 the check itself failed
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
bash "$here/build.sh" || exit 2
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
exec "$here/target/debug/dao-sim" check "$id" "$tier"
