#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on the current tree.
. "$(dirname "$0")/lib.sh"
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
build_sim
"$SCRATCH/vsim" run -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$VERIF" -scratch "$SCRATCH"
exit $?
