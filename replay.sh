#!/bin/bash
# replay.sh FILE [-v]: execute a replay file against the current tree.
f="$(realpath "${1:?replay file}")"
. "$(dirname "$0")/lib.sh"
build_sim
"$SCRATCH/vsim" replay "$f" "${2:-}"
exit $?
