"""Concrete runs of the contracts against the real code (sanitizers on)."""
import os
import re
import glob
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=gnu++11', '-O1', '-g1', '-D__forceinline=inline', '-include', 'cstring', '-w', '-fno-omit-frame-pointer',
         '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=0', 'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1'}

GROUP = {}


def group_of(prop):
    """harness files that hold tests of the property"""
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'replay', '*.cpp'))):
        t = open(f).read()
        if any(prop in m.split() for m in re.findall(r'RP_TEST\("([^"]*)"', t)):
            out.append(f)
    return out


def build(repo, prop, work):
    """returns (executable, None) or (None, reason)"""
    files = group_of(prop)
    if not files:
        return None, 'no concrete harness'
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '*.cpp'))) + [os.path.join(HERE, 'replay', 'rp_main.cpp')] + files

    def one(s):
        o = os.path.join(work, os.path.basename(s)[:-4] + '.o')
        r = subprocess.run(['g++'] + FLAGS + ['-I', os.path.join(repo, 'include'), '-I', os.path.join(HERE, 'replay'), '-c', s, '-o', o], capture_output=True, text=True)
        return o if r.returncode == 0 else None, s, r.stderr
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [(s, e) for o, s, e in res if o is None]
    lost = [s for s, _ in bad if s not in files]
    if lost:
        return None, 'does not compile: %s %s' % (lost[0], dict(bad)[lost[0]][:600])
    objs = [o for o, _, _ in res if o]
    if len(bad) == len(files):
        return None, 'harness does not compile: %s' % bad[0][1][:600]
    exe = os.path.join(work, 'replay.exe')
    r = subprocess.run(['g++'] + FLAGS + objs + ['-o', exe], capture_output=True, text=True)
    if r.returncode:
        return None, 'link: ' + r.stderr[:600]
    return exe, ('not compiled: %s' % bad) if bad else None


def run(exe, prop, seed, cases, limit, test=None, case=None):
    """(failed?, text, number of cases)"""
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--cases', str(cases), '--time', str(limit)]
    if test:
        cmd += ['--test', test]
    if case is not None:
        cmd += ['--case', str(case)]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 120, env=dict(os.environ, **ENV), errors='replace')
    except subprocess.TimeoutExpired:
        return False, 'time', 0
    out = r.stdout
    m = re.search(r'^FAIL test=(\S+) case=(\d+) seed=(\d+)', out, re.M)
    n = sum(int(x) for x in re.findall(r'^OK test=\S+ cases=(\d+)', out, re.M))
    if m:
        return True, out[m.start():] + '\n' + r.stderr[:3000], n + int(m.group(2))
    if r.returncode != 0 or 'DONE' not in out:
        return False, 'harness ended with %s: %s %s' % (r.returncode, out[-300:], r.stderr[-300:]), n
    return False, out, n


if __name__ == '__main__':
    import sys
    import shutil
    import time
    repo = os.environ.get('DV_REPO', '/repo')
    w = tempfile.mkdtemp(prefix='rp')
    t0 = time.time()
    exe, why = build(repo, sys.argv[1], w)
    print('built in %.1fs' % (time.time() - t0), why or '')
    if exe:
        f, t, n = run(exe, sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 1000, 60)
        print(t[:3000])
        print('%.1fs, %d cases' % (time.time() - t0, n))
    shutil.rmtree(w)
