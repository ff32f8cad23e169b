#!/bin/bash
# trycheck.sh SEEDED CHECK...: run checks against a scratch copy of /repo with one planted bug (development tool)
B=$1; shift
D=$(mktemp -d /tmp/try-XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo" && git -C "$D/repo" apply /verif/seeded/$B/patch.diff || exit 3
for c in "$@"; do
  t0=$(date +%s)
  SIM_REPO="$D/repo" /verif/bin/check.sh $c > "$D/log" 2>&1; rc=$?
  echo "$B $c rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION "$D/log" | cut -c1-150) | $(grep -m1 -A3 VIOLATION "$D/log" | sed -n 2,3p | cut -c1-200)"
done
