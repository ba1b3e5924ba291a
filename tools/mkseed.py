#!/usr/bin/env python3
"""Helper to write planted bugs: from mkseed import seed; seed(id, prop, pkg, needs, breaks, [(file, old, new)...], demo)"""
import sys, os, json, subprocess, shutil, tempfile

def seed(sid, prop, pkg, needs, breaks, edits, demo=None, same=None):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='/tmp/mkseed')
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    for f, old, new in edits:
        p = f'{w}/repo/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    files = sorted({f for f, _, _ in edits})
    bad = subprocess.check_output(['gofmt', '-l'] + [f'{w}/repo/{f}' for f in files]).decode()
    if bad: print(sid, 'gofmt:', bad)
    diff = subprocess.check_output(['git', '-C', w + '/repo', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    if same: demo = open(f'/verif/seeded/{same}/demo_test.go').read()
    open(d + '/demo_test.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Run in the repository root: adds an in-package test through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -run '^TestDemo' -count=1 -timeout 250s ./{pkg}
''')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.call(['bash', '/verif/tools/plant.sh', sid])
