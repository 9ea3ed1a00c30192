#!/bin/bash
# setup.sh: check that everything builds from the committed files.
. "$(dirname "$0")/lib.sh"
build_sim
"$SCRATCH/vsim" list
