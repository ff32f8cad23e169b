#!/bin/bash
# plant.sh ID: turn the edits made in the scratch copy /tmp/sw into seeded/ID, after confirming them.
# Development tool: expects /tmp/sw (a copy of /repo with the edits), /tmp/sd/ID/demo_test.go,
# /tmp/sd/ID/pkg (package directory the test belongs to), /tmp/sd/ID/meta.json and optionally /tmp/sd/ID/flags.
set -u
ID="$1"; S=/tmp/sd/$ID; OUT=/verif/seeded/$ID
mkdir -p $OUT
git -C /tmp/sw diff > $OUT/patch.diff
[ -s $OUT/patch.diff ] || { echo "$ID: empty patch"; exit 1; }
cp $S/demo_test.go $OUT/zz_demo_test.go.txt
cp $S/meta.json $OUT/meta.json
PKG=$(cat $S/pkg); FLAGS=$(cat $S/flags 2>/dev/null)
cat > $OUT/demo.sh <<EOS
#!/bin/bash
# Lays a Go test over the tree in the current directory and runs it.
D="\$(cd "\$(dirname "\$0")" && pwd)"; R="\$PWD"
T="\$(mktemp -d)" || exit 3
trap 'rm -rf "\$T"' EXIT
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "\$d/go" ] && export PATH="\$d:\$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off HOME="\${HOME:-/root}"
cp "\$R/go.mod" "\$T/m.mod"
[ -f /opt/vp/owcrypt.sum ] && cp /opt/vp/owcrypt.sum "\$T/m.sum"
cp "\$D/zz_demo_test.go.txt" "\$T/zz_demo_test.go"
echo "{\"Replace\":{\"\$R/$PKG/zz_demo_test.go\":\"\$T/zz_demo_test.go\"}}" > "\$T/ov.json"
export GOFLAGS="-mod=mod -modfile=\$T/m.mod"
go test -vet=off -count=1 -timeout 250s $FLAGS -overlay "\$T/ov.json" -run '^TestDemo\$' "./$PKG"
EOS
chmod +x $OUT/demo.sh
fail() { echo "$ID: $1"; exit 1; }
T=$(mktemp -d); cp /tmp/sw/go.mod $T/m.mod; cp /opt/vp/owcrypt.sum $T/m.sum
( cd /tmp/sw && export GOFLAGS="-mod=mod -modfile=$T/m.mod" GOTOOLCHAIN=local GOPROXY=off GOWORK=off && go build ./... && go test -json -vet=off -count=1 ./... > $T/t.json )
python3 - $T/t.json <<'P' || fail "stable tests fail"
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
m=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-ok
if m: print(m)
sys.exit(1 if m else 0)
P
rm -rf "$T"
( cd /repo && bash $OUT/demo.sh > $S/clean.log 2>&1 ) || { tail -20 $S/clean.log; fail "demo fails on the clean tree"; }
if ( cd /tmp/sw && bash $OUT/demo.sh > $S/patched.log 2>&1 ); then fail "demo passes with the patch"; fi
grep -q -- "--- FAIL: TestDemo\|panic\|fatal" $S/patched.log || { tail -20 $S/patched.log; fail "demo does not fail as a test"; }
[ -z "$(git -C /repo status --short)" ] || fail "repo dirty"
echo "$ID: planted"
