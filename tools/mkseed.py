#!/usr/bin/env python3
"""mkseed.py SPEC.py: development tool. SPEC defines S = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, demo)];
writes seeded/<id>/{patch.diff,meta.json,demo.sh,demo_test.go}. demo is Go test source (function TestZZDemo) put in package pkg by overlay."""
import sys, os, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# Runs demo_test.go inside %(pkg)s (by overlay; nothing is written to the repository). Fails if the guarantee is broken.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$t/overlay.json"
go test -buildvcs=false -vet=off -overlay "$t/overlay.json" -run '^TestZZDemo$' -count=1 -timeout 280s ./%(pkg)s
'''
for s in ns['S']:
    if only and s['id'] not in only: continue
    d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    diff = ''
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True)
        for f, old, new in s['edits']:
            p = os.path.join(t, f); c = open(p).read()
            assert c.count(old) == 1, (s['id'], f, c.count(old), old)
            open(p, 'w').write(c.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % s); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo_test.go'), 'w').write(s['demo'].lstrip())
    print(s['id'])
