"""Development aid: applies edits that keep the behaviour to scratch copies and reports whether any check would alarm.
usage: quiet.py FILE [INDEX...]   (FILE: python list of (properties, [(file, old, new)...]))"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

items = list(enumerate(eval(open(sys.argv[1]).read())))
if len(sys.argv) > 2:
    items = [items[int(i)] for i in sys.argv[2:]]


def one(it):
    k, (props, edits) = it
    d = tempfile.mkdtemp(prefix='quiet')
    try:
        for x in ('src', 'include'):
            subprocess.run('git -C /repo archive HEAD %s | tar -x -C %s' % (x, d), shell=True, check=True)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return k, 'NOT APPLICABLE %s' % old[:60]
            s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
            open(p, 'w').write(s)
        for e in edits:
            if e[0].endswith('.cpp'):
                r = subprocess.run(['g++', '-fsyntax-only', '-std=c++17', '-D__forceinline=inline', '-w', '-include', 'cstring', os.path.join(d, e[0])], capture_output=True, text=True)
                if r.returncode:
                    return k, 'DOES NOT COMPILE ' + r.stderr[:300]
        out = []
        for prop in props.split():
            r = subprocess.run(['python3-vt', '-m', 'dv.run', prop], capture_output=True, text=True, cwd='/verif', env=dict(os.environ, DV_REPO=d))
            fails = [l.strip() for l in r.stdout.splitlines() if 'FAILED' in l]
            uns = [l for l in r.stdout.splitlines() if 'cannot interpret' in l or 'error' in l or 'Error' in l]
            out.append('%s %s' % (prop, ('ALARM %d: %s' % (len(fails), fails[0][:110]) if fails else 'UNSUPPORTED %s' % uns[0][:150] if uns else 'quiet' if r.returncode == 0 else 'exit %d %s' % (r.returncode, r.stderr[-200:]))))
        return k, '; '.join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    for k, r in ex.map(one, items):
        print(k, r, '|', items[[i for i, _ in items].index(k)][1][1][0][0], flush=True)
