#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree and run one check
. "$(dirname "$0")/lib.sh"
ID="$1"
[ $# -ge 2 ] && export VERIF_TIER="$2"
SCRATCH="$(mktemp -d /tmp/sim-$ID-XXXXXX)" || exit 3
export SIM_SCRATCH="$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$VERIF/evidence"
rm -f "$VERIF/evidence/$ID.json"
if ! sim_build "$SCRATCH"; then
  echo "ERROR: the tree under test could not be instrumented and built"
  exit 3
fi
"$SCRATCH/sim-asm" run "$ID" asm="$SCRATCH/sim-asm" portable="$SCRATCH/sim-portable" plain="$SCRATCH/sim-plain"
exit $?
