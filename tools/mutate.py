"""Development aid: applies one-line edits to scratch copies of the sources and reports whether the
obligations of a property fail.  usage: mutate.py PROP FILE  (FILE: python list of (file, old, new))"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

prop, spec = sys.argv[1], sys.argv[2]
muts = eval(open(spec).read())


def one(m):
    f, old, new = m[:3]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('src', 'include'):
            subprocess.run('git -C /repo archive HEAD %s | tar -x -C %s' % (x, d), shell=True, check=True)
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'NOT APPLICABLE'
        n = m[3] if len(m) > 3 else 0
        parts = s.split(old)
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)
        if '--concrete' in sys.argv:
            r = subprocess.run(['python3-vt', '-m', 'dv.replay', prop, '1', '3000'], capture_output=True, text=True, cwd='/verif', env=dict(os.environ, DV_REPO=d))
            l = r.stdout.splitlines()
            f = [i for i, x in enumerate(l) if x.startswith('FAIL')]
            return 'INPUT    %s' % ' '.join(l[f[0]:f[0] + 2])[:150] if f else 'NO INPUT %s' % ' '.join(l)[-150:]
        r = subprocess.run(['python3-vt', '-m', 'dv.run', prop], capture_output=True, text=True, cwd='/verif', env=dict(os.environ, DV_REPO=d))
        fails = [l.strip() for l in r.stdout.splitlines() if 'FAILED' in l]
        uns = [l for l in r.stdout.splitlines() if 'cannot interpret' in l or 'error' in l]
        return ('caught   %s' % fails[0][:110] if fails else 'UNSUPPORTED %s' % uns[0][:150] if uns else 'MISSED') if r.returncode or uns or fails else 'MISSED'
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for m, r in zip(muts, ex.map(one, muts)):
        print(r, '|', m[0], '|', m[1].strip()[:60], '->', m[2].strip()[:60])
