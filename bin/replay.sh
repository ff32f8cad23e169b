#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and run one replay file with its event log.
# Exit 1: violation reproduced; exit 2: not reproduced.
. "$(dirname "$0")/lib.sh"
SCRATCH="$(mktemp -d /tmp/sim-replay-XXXXXX)" || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
sim_build "$SCRATCH" || exit 3
CFG="$("$SCRATCH/sim-asm" config "$1")"
"$SCRATCH/sim-${CFG:-asm}" replay "$1"
exit $?
