"""Development aid: functions and basic blocks of the library that no contract executes or summarises."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp
from dv import front, run, exe, sym
from dv.specs import base

run.load_specs()
mod, dbg = front.load(os.environ.get('DV_REPO', '/repo'))
seen = set()
klass = [c for c in vars(exe).values() if isinstance(c, type) and 'exec_block' in vars(c)][0]
old = klass.exec_block


def exec_block(self, f, l, st):
    seen.add((f.name, l))
    return old(self, f, l, st)


klass.exec_block = exec_block


def one(k):
    seen.clear()
    E = base.Env(mod, dbg)
    try:
        run.limit(200)
        base.TASKS[k].fn(E)
    except BaseException:
        pass
    finally:
        run.limit(0)
    return set(seen)


if __name__ == '__main__':
    with mp.get_context('fork').Pool(6) as p:
        for s in p.imap_unordered(one, range(len(base.TASKS)), chunksize=1):
            seen |= s
    fns = mod.functions.values() if hasattr(mod, 'functions') else mod.funcs.values()
    for f in fns:
        n = sym.demangle(f.name)
        if 'atg_scs' not in n.split('(')[0]:
            continue
        bl = set(f.order)
        miss = [b for b in f.order if (f.name, b) not in seen]
        if miss:
            print('%-90s %d of %d blocks not executed %s' % (n[:90], len(miss), len(bl), '' if len(miss) == len(bl) else miss[:8]))
