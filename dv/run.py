"""Runs the contracts of a property and collects the verdicts."""
import os
import signal
import time
import traceback
import multiprocessing as mp
from . import front, smt, sym
from .specs import base
from .sym import Unsupported, Infeasible, demangle
from .world import Spec, NoReturn

_G = {}


def load_specs():
    import importlib
    import glob
    d = os.path.join(os.path.dirname(__file__), 'specs')
    for f in sorted(glob.glob(d + '/*.py')):
        n = os.path.basename(f)[:-3]
        if n not in ('__init__', 'base'):
            importlib.import_module('dv.specs.' + n)


class OutOfTime(BaseException):
    pass


def _alarm(*_):
    raise OutOfTime()


def limit(seconds):
    """raises OutOfTime in this process after so many seconds (and again, should the first one be lost in a solver)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(0.01, seconds) if seconds else 0, 5 if seconds else 0)


def run_task(args):
    k, prop, timeout, end = args
    t = base.TASKS[k]
    mod, dbg = _G['m']
    t0 = time.time()
    timeout = max(1, min(timeout, end - t0))
    res = {'task': t.name, 'obls': [], 'error': None, 'entered': [], 'applied': [], 'trusted': [], 'notes': [], 'bounded': t.bounded, 'vacuous': [], 'covers': 0}
    for x in smt.STATS:
        smt.STATS[x] = type(smt.STATS[x])(0)
    E = base.Env(mod, dbg)
    try:
        try:
            limit(0.8 * timeout)
            t.fn(E)
        finally:
            limit(0)
    except OutOfTime:
        res['error'] = 'no answer of the verifier within %d s' % (0.8 * timeout)
    except NoReturn:
        pass
    except Unsupported as e:
        res['error'] = 'verifier cannot interpret the code: %s' % e
        res['trace'] = traceback.format_exc()[-1500:]
    except Spec as e:
        res['error'] = 'contract cannot be attached: %s' % e
    except Infeasible:
        res['error'] = 'no feasible execution'
    except Exception as e:
        res['error'] = 'verifier error: %r' % e
        res['trace'] = traceback.format_exc()[-3000:]
    deadline = t0 + timeout
    for w in E.worlds:
        res['entered'] += [demangle(n) for n in w.c.entered]
        res['applied'] += [demangle(n) if n.startswith('@') else n for n in w.c.applied]
        res['trusted'] += sorted(w.ex.lib.used)
        res['notes'] += sorted(w.c.notes)
        n0 = len(res['obls'])
        for o in w.c.obls:
            tag = getattr(o, 'tag', None)
            if tag is not None and prop is not None and tag != prop:
                continue
            t1 = time.time()
            rec = dict(name=o.name, where=o.where, fn=w.name, kind=o.kind)
            if time.time() > deadline:
                rec.update(ok=False, how='none', note='out of time', model=None, time=0, goal=None)
                res['obls'].append(rec)
                continue
            try:
                try:
                    limit(min(150, deadline - time.time()))
                    r = smt.prove(o.hyps, o.goal, getattr(o, 'timeout', 8000))
                finally:
                    limit(0)
                rec.update(ok=r.ok, how=r.how, note=r.note, model=r.model, time=round(time.time() - t1, 3), goal=None if r.ok else base.T.show(o.goal)[:3000])
            except OutOfTime:
                rec.update(ok=False, how='none', note='out of time', model=None, time=0, goal=None)
            except Exception as e:
                rec.update(ok=False, how='none', note='verifier error %r' % e, model=None, time=0, goal=None)
                res['error'] = res['error'] or 'verifier error: %r' % e
            res['obls'].append(rec)
        # the contract is not vacuous: its preconditions can hold and the function can return
        if w.pre is not None and not res['error']:
            st = w.post if w.post is not None else w.pre
            if len(res['obls']) == n0 and prop is None:
                res['vacuous'].append(w.name + ': no obligation')
            if smt.prove(st.hyps(), base.FALSE, 3000).ok and not any(not o['ok'] for o in res['obls'][n0:]):
                res['vacuous'].append(w.name + ': the assumptions are contradictory')
            else:
                res['covers'] += 1
    res['time'] = round(time.time() - t0, 2)
    res['stats'] = dict(smt.STATS)
    return res


def run_property(prop, repo='/repo', timeout=300, jobs=8, only=None):
    load_specs()
    _G['m'] = front.load(repo)
    ks = [k for k, t in enumerate(base.TASKS) if (prop is None or prop in t.props) and (only is None or only in t.name)]
    end = time.time() + 2 * timeout
    work = [(k, prop, timeout, end) for k in ks]
    if jobs <= 1:
        return [run_task(w) for w in work]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, max(1, len(work)))) as pool:
        return pool.map(run_task, work, chunksize=1)


if __name__ == '__main__':
    import sys
    prop = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != '-' else None
    only = sys.argv[2] if len(sys.argv) > 2 else None
    repo = os.environ.get('DV_REPO', '/repo')
    t0 = time.time()
    for r in run_property(prop, repo, only=only, jobs=1 if only else 8):
        bad = [o for o in r['obls'] if not o['ok']]
        print('%-50s %5d obligations %3d failed %6.1fs %s' % (r['task'], len(r['obls']), len(bad), r['time'], r['error'] or (('VACUOUS %s' % r['vacuous']) if r['vacuous'] else '')))
        if r['error'] and 'trace' in r and only:
            print(r['trace'])
        for o in bad[:12]:
            print('    FAILED %s [%s] %s %s' % (o['name'], o['where'], o['note'], (o.get('goal') or '')[:300]))
    print('%.1fs' % (time.time() - t0))
