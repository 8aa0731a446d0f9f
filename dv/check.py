"""One property: verify its contracts on the current tree, replay failures on the real code, write evidence."""
import json
import os
import shutil
import sys
import tempfile
import time
import hashlib
from . import front, run, replay

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    'double and float arithmetic is exact real arithmetic (no rounding, overflow, NaN or infinity)',
    'int, size_t and pointer arithmetic is mathematical integer arithmetic (no overflow; 8- and 16-bit values wrap)',
    'clang 18 -O0 translates the sources to LLVM IR correctly, and the IR means what dv/sym.py says',
    'operator new succeeds and returns a fresh object; standard library functions behave as specified',
    'arguments satisfy the stated preconditions (valid objects, registered bodies, positive sizes)',
]


def known(prop):
    """entries of known_findings.txt that are findings (not fixed) of this property"""
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('DV_REPO', '/repo')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='dvcheck')
    try:
        return check(prop, tier, seed, repo, t0, work, argv)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_replay(prop, name, data):
    d = os.path.join(HERE, 'build', 'replay-files')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def check(prop, tier, seed, repo, t0, work, argv):
    # ---- re-run of one recorded failing case
    if '--replay' in argv:
        d = json.load(open(argv[argv.index('--replay') + 1]))
        if 'case' not in d:
            print(json.dumps(d, indent=1))
            return 0
        exe, why = replay.build(repo, prop, work)
        bad, txt, n = replay.run(exe, prop, d['seed'], d['cases'], 600, d['test'], d['case'])
        print(txt)
        return 1 if bad else 0

    # the concrete harness is compiled while the proofs run
    from concurrent.futures import ThreadPoolExecutor
    try:
        results = run.run_property(prop, repo, timeout=240 if tier == 'quick' else 600)
        builderr = None
    except front.BuildError as e:
        results, builderr = [], str(e)
    except Exception as e:                  # the extraction itself cannot follow the code
        results, builderr = [], '%s: %s' % (type(e).__name__, e)
    wall_proof = time.time() - t0
    obls = [o for r in results for o in r['obls']]
    failed = [(r, o) for r in results for o in r['obls'] if not o['ok'] and o['note'] != 'out of time']
    for r in results:
        late = sum(1 for o in r['obls'] if o['note'] == 'out of time')
        if late and not r['error']:
            r['error'] = 'no answer of the verifier for %d obligations within its time' % late
    for r in results:
        for v in r['vacuous']:
            failed.append((r, dict(name='some execution satisfies the contract (not vacuous): ' + v, fn=v, where='', kind='reachability', note='contradictory', goal=None, model=None)))
    errors = [r for r in results if r['error']]
    vac = [v for r in results for v in r['vacuous']]
    for r in results:
        b = sum(1 for o in r['obls'] if not o['ok'])
        print('%-60s %5d obligations, %d undischarged %s' % (r['task'], len(r['obls']), b, ('[' + r['error'][:200] + ']') if r['error'] else ''))

    # ---- concrete runs of the same contracts
    exe, why = replay.build(repo, prop, work)
    conc = dict(built=exe is not None, note=why or '', cases=0, failed=False)
    ftxt = None
    if exe:
        if failed or errors or builderr:
            plan = [(seed, 3000, 60), (seed + 1, 30000, 180)]
        elif tier == 'thorough':
            plan = [(seed + k, 20000, 120) for k in range(3)]
        else:
            plan = [(seed, 600, 20)]
        for sd, n, lim in plan:
            bad, txt, cnt = replay.run(exe, prop, sd, n, lim)
            conc['cases'] += cnt
            if bad:
                ftxt = txt
                conc['failed'] = True
                break
            if txt.startswith('harness ended'):
                conc['note'] += ' ' + txt[:300]
    violation = None
    if ftxt is not None:
        import re
        m = re.search(r'FAIL test=(\S+) case=(\d+) seed=(\d+)', ftxt)
        data = dict(property=prop, kind='failing input on the real code', test=m.group(1), case=int(m.group(2)), seed=int(m.group(3)), cases=10 ** 7,
                    detail=ftxt[:6000], rerun='/verif/check %s --replay <this file>' % prop,
                    failed_obligations=[dict(task=r['task'], name=o['name'], function=o['fn'], where=o['where'], note=o['note']) for r, o in failed[:20]])
        path = write_replay(prop, 'input', data)
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
        print(ftxt[:1500])
    elif failed:
        data = dict(property=prop, kind='undischarged obligations, no failing input found',
                    failed_obligations=[dict(task=r['task'], name=o['name'], function=o['fn'], where=o['where'], kind=o['kind'], goal=o['goal'], verifier=o['note'],
                                             counterexample=o['model']) for r, o in failed[:40]],
                    concrete_cases_tried=conc['cases'], harness=conc['note'])
        path = write_replay(prop, 'obligation', data)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
        for r, o in failed[:5]:
            print('undischarged: %s: %s [%s] %s' % (r['task'], o['name'], o['where'], o['note']))
    for e in errors:
        print('bounded only: %s: %s' % (e['task'], e['error'][:300]))
    for v in vac:
        print('vacuous contract: %s' % v)
    hows = {}
    for o in obls:
        if o['ok']:
            hows[o['how']] = hows.get(o['how'], 0) + 1
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    ent = sorted({f for r in results for f in r['entered']})
    bounded = [dict(contract=r['task'], reason=r['error'], stand_in='seeded concrete runs of the same contract on the real code, %d cases, sizes as in /verif/replay' % conc['cases']) for r in errors]
    trusted = sorted({t for r in results for t in r['trusted']})
    if not results and builderr:
        bounded.append(dict(contract='all', reason='extraction: ' + builderr[:300], stand_in='concrete runs'))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=len(obls), discharged=sum(1 for o in obls if o['ok']),
                            checker_cmd='/verif/check %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
                            trusted_base=['assumed library contract: ' + t for t in trusted] + ['dv (verification condition generator in /verif/dv), z3, cvc5, clang front end'],
                            contracts=[dict(contract=r['task'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o['ok']), seconds=r['time'], reachability_checks=r['covers'],
                                            callee_contracts_applied=sorted(set(r['applied'])), bounded=bool(r['error']) or r['bounded']) for r in results],
                            functions_under_contract=ent, discharged_by=hows, solver_seconds=stats,
                            vacuous=vac, bounded_stand_ins=bounded,
                            concrete_contract_runs=dict(cases=conc['cases'], harness=conc['note'] or 'ok', role='replay of failures and bounded stand-in; never counted as proved'),
                            extraction='clang++ -O0 LLVM IR of every file of src/ and the header templates of the current tree; dropped: exception edges that need exceptions, debug intrinsics'),
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d obligations, %d discharged %s, %d concrete cases, %.1fs' % (prop, len(obls), ev['coverage']['discharged'], hows, conc['cases'], time.time() - t0))
    if violation:
        print(violation)
        return 1
    if (not obls and not conc['cases']):
        # nothing was decided: an error of the check, not a verdict
        print('ERROR: the check decided nothing')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
