# shared by the scripts in this directory
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${SIM_REPO:-/repo}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  if [ -x "$d/go" ]; then export PATH="$d:$PATH"; break; fi
done
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
unset GOROOT GOOS GOARCH GO111MODULE 2>/dev/null || true
export SIM_VERIF="$VERIF"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"

# sim_build DIR: instrument the current tree and build the three simulators into DIR
sim_build() {
  local out="$1" mf=""
  if [ "$REPO" != /repo ]; then # development aid: check a scratch copy
    sed "s#=> /repo#=> $REPO#" "$VERIF/sim/go.mod" > "$out/go.mod"; cp "$VERIF/sim/go.sum" "$out/go.sum"
    mf="-modfile=$out/go.mod"
  fi
  ( cd "$VERIF/sim" &&
    go build -o "$out/instrument" ./instrument &&
    "$out/instrument" -repo "$REPO" -out "$out/ov" > "$out/instrument.log" 2>&1 &&
    "$out/instrument" -bare -repo "$REPO" -out "$out/ovb" >> "$out/instrument.log" 2>&1 ) || { cat "$out/instrument.log" 2>/dev/null; return 1; }
  ( cd "$VERIF/sim" && go build $mf -overlay "$out/ov/overlay.json" -o "$out/sim-asm" ./cmd/simcheck ) &
  local a=$!
  ( cd "$VERIF/sim" && go build $mf -tags "generic appengine" -overlay "$out/ov/overlay.json" -o "$out/sim-portable" ./cmd/simcheck ) &
  local b=$!
  ( cd "$VERIF/sim" && go build $mf -overlay "$out/ovb/overlay.json" -o "$out/sim-plain" ./cmd/simcheck ) &
  local c=$!
  local rc=0
  wait $a || rc=1
  wait $b || rc=1
  wait $c || rc=1
  return $rc
}
