#!/bin/bash
# seedtest.sh ID [PROPERTY...]: confirm a planted change in a scratch copy (builds, stable tests pass, demo passes without and
# fails with it), then run the check of its property (or the given ones) against the changed copy.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
export GOFLAGS=-mod=mod GOEXPERIMENT=arenas GOPROXY=off
cd "$W/repo" || exit 2
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
go build ./... || { echo "$id: base does not build"; exit 2; }
[ -n "$SKIPDEMO" ] || timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; rc0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... || { echo "$id: does not build"; exit 2; }
if [ -z "$SKIPDEMO" ]; then
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; rc1=$?
go test -json -vet=off -count=1 ./... >"$W/t.json" 2>/dev/null
python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b if isinstance(b,list) else (b.get('stable') or b.get('tests') or b.get('passed') or list(b))
ok=set();bad=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d['Action']=='pass': ok.add(d['Test'])
    if d.get('Test') and d['Action']=='fail': bad.add(d['Test'])
miss=[n for n in names if not any(str(n).endswith(t) for t in ok)]
print('stable tests missing:',miss if miss else 'none','failed:',sorted(bad))
P
echo "$id: demo clean rc=$rc0 patched rc=$rc1 (want 0 / nonzero)"
[ $rc0 = 0 ] && [ $rc1 != 0 ] || { echo "--- clean"; tail -5 "$W/d0"; echo "--- patched"; tail -5 "$W/d1"; }
fi
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -n "$NOCHECK" ] && exit 0
for p in "$@"; do REPO="$W/repo" bash /verif/check.sh "$p" >"$W/out" 2>&1; echo "$id: check $p exit $? $(grep -c . "$W/out")"; head -${LINES_OUT:-4} "$W/out" | cut -c1-220; done
