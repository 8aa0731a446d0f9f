"""Development aid: planted bugs in scratch copies; what the obligations and what the concrete runs of each property say.
usage: bugs.py FILE [INDEX...]   (FILE: python list of (properties, [(file, old, new)...]))"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

items = list(enumerate(eval(open(sys.argv[1]).read())))
if len(sys.argv) > 2:
    items = [items[int(i)] for i in sys.argv[2:]]


def one(it):
    k, (props, edits) = it
    d = tempfile.mkdtemp(prefix='bug')
    try:
        for x in ('src', 'include'):
            subprocess.run('git -C /repo archive HEAD %s | tar -x -C %s' % (x, d), shell=True, check=True)
        for e in edits:
            p = os.path.join(d, e[0])
            s = open(p).read()
            if e[1] not in s:
                return k, 'NOT APPLICABLE %s' % e[1][:60]
            open(p, 'w').write(s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1))
        for e in edits:
            if e[0].endswith('.cpp'):
                r = subprocess.run(['g++', '-fsyntax-only', '-std=c++17', '-D__forceinline=inline', '-w', '-include', 'cstring', os.path.join(d, e[0])], capture_output=True, text=True)
                if r.returncode:
                    return k, 'DOES NOT COMPILE ' + r.stderr[:300]
        out = []
        for prop in props.split():
            env = dict(os.environ, DV_REPO=d)
            r = subprocess.run(['python3-vt', '-m', 'dv.run', prop], capture_output=True, text=True, cwd='/verif', env=env)
            fails = [l.strip() for l in r.stdout.splitlines() if 'FAILED' in l]
            uns = [l for l in r.stdout.splitlines() if 'cannot interpret' in l or 'error' in l]
            ded = 'proof fails: ' + fails[0][:70] if fails else 'UNSUPPORTED' if uns else 'proof ok' if r.returncode == 0 else 'exit'
            r = subprocess.run(['python3-vt', '-m', 'dv.replay', prop, '1', '4000'], capture_output=True, text=True, cwd='/verif', env=env)
            f = [x for x in r.stdout.splitlines() if x.startswith('FAIL')]
            con = 'INPUT' if f else 'no input'
            out.append('%s%s %s, %s' % ('' if fails or f else '*** MISSED *** ', prop, con, ded))
        return k, '; '.join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    for k, r in ex.map(one, items):
        it = dict(items)[k]
        print(k, r, '|', it[1][0][0], '|', it[1][0][2].strip()[:50].replace('\n', ' '), flush=True)
