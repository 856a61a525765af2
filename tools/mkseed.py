#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, test (Go source) or demo (shell)."""
import sys, os, json, subprocess, tempfile, shutil
g = {}
exec(open(sys.argv[1]).read(), g)
DEMO = '''#!/bin/bash
# exit 0: the property holds in the repository in the current directory; non-zero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOEXPERIMENT=arenas GOPROXY=off TMPDIR="$T"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" >"$T/overlay.json"
%stimeout 250 go test %s-vet=off -count=1 -overlay "$T/overlay.json" -run '^TestDemo' ./%s
'''
def one(d):
    S = '/verif/seeded/' + d['id']
    os.makedirs(S, exist_ok=True)
    W = tempfile.mkdtemp(prefix='mk.', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/r'])
        for f, old, new in d['edits']:
            p = W + '/r/' + f
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{d['id']}: {f}: {t.count(old)} occurrences of {old!r}")
            open(p, 'w').write(t.replace(old, new))
        subprocess.check_call(['gofmt', '-l', W + '/r/index'])
        diff = subprocess.check_output(['git', '-C', W + '/r', 'diff'], text=True)
        open(S + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(W)
    if 'test' in d:
        open(S + '/demo_test.go.txt', 'w').write(d['test'].lstrip('\n'))
        pre = 'ulimit -v unlimited; ' if False else d.get('pre', '')
        open(S + '/demo.sh', 'w').write(DEMO % (d['pkg'], pre, d.get('flags', ''), d['pkg']))
    else:
        open(S + '/demo.sh', 'w').write(d['demo'].lstrip('\n'))
    os.chmod(S + '/demo.sh', 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(S + '/meta.json', 'w'), indent=1)
for d in g['seeds']:
    if len(sys.argv) < 3 or d['id'] in sys.argv[2:]:
        one(d)
        print('made', d['id'])
