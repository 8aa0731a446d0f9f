"""Development aid: which planted bugs fail an obligation (the proof alone, without the concrete runs)?"""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(s):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git apply %s/seeded/%s/patch.diff' % (d, d, HERE, s), shell=True, check=True)
        p = json.load(open('%s/seeded/%s/meta.json' % (HERE, s)))['property']
        r = subprocess.run(['python3-vt', '-m', 'dv.run', p], cwd=HERE, env=dict(os.environ, DV_REPO=d), capture_output=True, text=True, timeout=900)
        bad = [l.strip()[:140] for l in r.stdout.splitlines() if 'FAILED' in l or 'Unsupported' in l or 'UNSUPPORTED' in l]
        return s, p, len(bad), bad[:2]
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, sorted(x for x in os.listdir(HERE + '/seeded') if os.path.isdir(HERE + '/seeded/' + x))):
        print(*r, flush=True)
