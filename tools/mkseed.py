#!/usr/bin/env python3
"""Author a planted bug: mkseed.py SPEC.py   (SPEC defines id, property, edits=[(file, old, new)], demo (C++ source), needs, breaks)
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo passes without and fails with the patch."""
import sys, os, subprocess, shutil, json, tempfile
DEMO_SH = '''#!/bin/bash
# compiles the library sources of the current directory with the demonstration and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
for f in "$here"/demo.cpp src/*.cpp; do
    g++ -std=c++17 -O1 -g %s -D__forceinline=inline -include cstring -I include -c "$f" -o "$tmp/$(basename "$f").o" &
done
wait
g++ %s "$tmp"/*.o -o "$tmp/demo" || exit 98
cd "$tmp" && timeout 100 ./demo
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid = ns['id']
out = '/verif/seeded/' + sid
ws = tempfile.mkdtemp(prefix='seedws')
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
try:
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.cpp', 'w').write(ns['demo'])
    san = ns.get('san', '')
    open(out + '/demo.sh', 'w').write(DEMO_SH % (san, san))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(out + '/meta.json', 'w'), indent=1)
    sh('git -C /repo worktree prune')
    sh('cp -a /repo/. %s/' % ws)
    r = sh('bash %s/demo.sh' % out, ws)
    if r.returncode != 0:
        print('demo fails on the clean tree', r.returncode, r.stdout[-800:], r.stderr[-1500:]); sys.exit(1)
    for f, a, b in ns['edits']:
        s = open(ws + '/' + f).read()
        if s.count(a) != ns.get('count', 1):
            print('edit does not match uniquely', f, s.count(a)); sys.exit(1)
        open(ws + '/' + f, 'w').write(s.replace(a, b))
    open(out + '/patch.diff', 'w').write(sh('git diff', ws).stdout)
    r = sh('bash %s/demo.sh' % out, ws)
    if r.returncode == 0:
        print('demo passes with the patch'); sys.exit(1)
    print('demo with patch: rc', r.returncode, (r.stdout + r.stderr)[-300:])
    # the build and the tests use /repo by name: apply there for the moment
    r = sh('git -C /repo apply %s/patch.diff && bash /opt/vp/test.sh /tmp/seed-tests.json' % out)
    sh('git -C /repo checkout -- .')
    res = json.load(open('/tmp/seed-tests.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable', base.get('passed', base))
    miss = [t for t in stable if t not in res['passed']]
    print('tests missing:', miss)
    if miss: sys.exit(1)
    if '--nocheck' not in sys.argv:
        sh('git -C /repo apply %s/patch.diff' % out)
        try:
            r = sh('./check %s' % ns['property'], '/verif', 900)
            print('check', ns['property'], 'rc', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'undisch' in l or 'bounded' in l][:6])
        finally:
            sh('git -C /repo checkout -- .')
    print('kept', out)
finally:
    shutil.rmtree(ws)
