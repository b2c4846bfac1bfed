#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's
# working tree (hooks on) and decide the property.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
kind=plain
[ "$1" = C18 ] && kind=cost
. "$here/build.sh" "$kind" || exit 2
export YARY_SIM_VERIF="$here"
export YARY_SIM_WORK="${YARY_SIM_WORK:-$CARGO_TARGET_DIR/work}"
exec "$CARGO_TARGET_DIR/release/yary-sim" check "$1" ${2:+"$2"}
