#!/bin/bash
# setup.sh: warm the Go build cache (everything is rebuilt by each check anyway)
. "$(dirname "$0")/lib.sh"
SCRATCH="$(mktemp -d /tmp/sim-setup-XXXXXX)" || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
sim_build "$SCRATCH" || exit 3
( cd "$VERIF/sim" && go test -run TestKAT ./ref 2>&1 ) || echo "warning: the reference models failed their own vectors"
echo "simulator builds; checks: $("$SCRATCH/sim-plain" list)"
