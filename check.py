#!/opt/venv/bin/python -Wignore
"""
check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
check.py --replay FILE
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pyvc-pycache'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

from pyvc import engine, sym  # noqa: E402
engine.setup_path()


def load(pid):
    return importlib.import_module('contracts.' + pid)


def _worker(pid, i, seed, tier, q, guard):
    try:
        sym.GUARD = guard
        h = harnesses(pid, tier)[i]
        q.put((i, engine.run_harness(h, seed, tier)))
    except BaseException:
        q.put((i, {'crash': traceback.format_exc()}))


_cache = {}


def harnesses(pid, tier):
    k = (pid, tier)
    if k not in _cache:
        m = load(pid)
        hs = m.harnesses(tier)
        names = [h.name for h in hs]
        assert len(set(names)) == len(names), 'duplicate harness names'
        _cache[k] = hs
    return _cache[k]


def findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f.get('property') == pid and f.get('status') == 'open']


def cpu_of(p):
    """processor seconds of a worker (its solver children included)"""
    try:
        v = open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split()
        return sum(int(x) for x in v[11:15]) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 0.


def run_all(pid, hs, seed, tier, jobs, grace=75):
    t0 = time.time()
    ctx = mp.get_context('fork')
    order = sorted(range(len(hs)), key=lambda i: -hs[i].budget * (2 if hs[i].heavy else 1))
    pending, running, res, again = list(order), {}, {}, set()
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(pid, i, seed, tier, q, i in again))
            p.start()
            running[i] = (p, q, time.time())
        for i in list(running):
            p, q, t = running[i]
            if not q.empty():
                res[i] = q.get()[1]
                p.join()
                del running[i]
            elif not p.is_alive():
                if not q.empty():
                    continue
                res[i] = {'crash': 'worker ended with code %s' % p.exitcode}
                del running[i]
            elif tier == 'quick' and time.time() - t0 > 840:
                # no answer in time: an undischarged obligation
                p.kill()
                p.join()
                del running[i]
                res[i] = {'timeout': True}
                while pending:
                    res[pending.pop()] = {'timeout': True}
            elif time.time() - t > hs[i].budget + grace and (
                    time.time() - t > 3 * (hs[i].budget + grace) or cpu_of(p) > hs[i].budget + grace):
                # the solver overran its own time limit: once more, with every query in a child process
                p.kill()
                p.join()
                del running[i]
                if i in again:
                    res[i] = {'timeout': True}
                else:
                    again.add(i)
                    pending.insert(0, i)
        time.sleep(0.02)
    return [res[i] for i in range(len(hs))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.prop, a.tier
    t0 = time.time()
    outdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(outdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations, undecided, results = [], [], []
    try:
        for n in engine.MODS:
            engine.mod(n)
        m = load(pid)
        hs = harnesses(pid, tier)
        if a.only:
            keep = [i for i, h in enumerate(hs) if a.only in h.name]
            hs = _cache[(pid, tier)] = [hs[i] for i in keep]
        results = run_all(pid, hs, seed, tier, a.jobs)
    except BaseException:
        # the code could not even be loaded or a contract no longer binds to it
        undecided.append({'harness': 'load', 'obligation': 'binding', 'note': traceback.format_exc()[-3000:]})
        m, hs = None, []
    known = findings(pid)
    known_hit = set()
    tot = dict(obligations=0, discharged=0, by_ring=0, by_z3=0, bounded=0, paths=0, solver_s=0.0, solver_calls=0,
               conc=0, conc_ok=0, bounded_paths=0)
    fns, assumed, rows, samples = set(), set(), [], []
    for h, r in zip(hs, results):
        if 'crash' in r or 'timeout' in r:
            undecided.append({'harness': h.name, 'obligation': 'completion', 'note': r.get('crash', 'time limit reached')})
            rows.append({'harness': h.name, 'status': 'no result'})
            continue
        nob = sum(v[0] for v in r['obligations'].values())
        if h.kind == 'proof':
            tot['obligations'] += nob + len(r['failed']) + len(r['undecided'])
            tot['discharged'] += nob
            tot['by_ring'] += sum(v[1] for v in r['obligations'].values())
            tot['by_z3'] += sum(v[2] for v in r['obligations'].values())
            tot['paths'] += r['paths']
        else:
            tot['bounded'] += nob
            tot['bounded_paths'] += r['paths']
        tot['solver_s'] += r['solver_s']
        tot['solver_calls'] += r['solver_calls']
        tot['conc'] += r['concrete_evals']
        tot['conc_ok'] += r['concrete_ok']
        fns.update(r['fns'])
        assumed.update(r['assumed'])
        samples.extend({'harness': h.name, 'input': s} for s in r['samples'][:1])
        rows.append({'harness': h.name, 'kind': h.kind, 'bound': h.bound, 'paths': r['paths'],
                     'obligations': {k: v[0] for k, v in r['obligations'].items()},
                     'concrete_runs': r['concrete_ok'], 'wall_s': round(r['wall'], 2),
                     'solver_s': round(r['solver_s'], 2)})
        if a.v:
            print('%-44s %-8s paths=%-5d vcs=%-6d conc=%d/%d rej=%d %.1fs %s' % (
                h.name, h.kind, r['paths'], nob, r['concrete_ok'], r['concrete_evals'], r['concrete_rejected'], r['wall'],
                'FAILED %d' % len(r['failed']) if r['failed'] else ('UNDECIDED' if r['undecided'] else '')))
            for f in r['failed'][:3] + r['undecided'][:3]:
                print('    ', json.dumps({k: v for k, v in f.items() if k != 'tb'}, default=str)[:500])
            for f in r['violations'][:3]:
                print('    VIOL', json.dumps(f, default=str)[:400])
            for e in r['errors'][:2]:
                print('    ERR', e)
        if r['violations']:
            v = r['violations'][0]
            hit = [k for k in known if k['harness'] == h.name and k['obligation'] == v['obligation']]
            if hit:
                known_hit.update(k['id'] for k in hit)
            elif h.fn.__name__ in getattr(m, 'MODULAR', ()):
                # callees were replaced by their contracts: an undischarged obligation, no input of the real code that fails
                undecided.append(dict(v, failed=r['failed'][:2]))
            else:
                violations.append(dict(v, failed=r['failed'][:2]))
        elif r['failed'] or r['undecided']:
            hit = [k for k in known if k['harness'] == h.name and
                   all(f['obligation'] == k['obligation'] for f in r['failed'] + r['undecided'])]
            if hit:
                known_hit.update(k['id'] for k in hit)
            else:
                for f in (r['failed'] + r['undecided'])[:2]:
                    undecided.append(dict(f, harness=h.name))
        elif r['errors']:
            undecided.append({'harness': h.name, 'obligation': 'concrete cross-check', 'note': str(r['errors'][0])})
        for k in known:
            if k['harness'] == h.name and k['id'] not in known_hit and not r['violations'] and not r['failed'] \
                    and not r['undecided']:
                print('note: known finding %s did not occur in this run' % k['id'])
    if hs and tot['obligations'] == 0 and tot['bounded'] == 0 and not violations and not undecided:
        undecided.append({'harness': '*', 'obligation': 'vacuity', 'note': 'no obligation was generated'})
    for k in known:
        if k['id'] in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    if violations:
        rc = 1
        for n, v in enumerate(violations):
            p = os.path.join(rdir, '%s-%d.json' % (pid, n))
            json.dump(dict(v, property=pid, tier=tier, how='./check.py --replay ' + p), open(p, 'w'), indent=1, default=str)
            print('%s: %s violated in %s: %s' % (pid, v['obligation'], v['harness'], v['note']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
    elif undecided:
        rc = 1
        for n, v in enumerate(undecided[:5]):
            p = os.path.join(rdir, '%s-o%d.json' % (pid, n))
            json.dump(dict(v, property=pid, tier=tier), open(p, 'w'), indent=1, default=str)
            print('%s: obligation %s of %s was not discharged: %s' % (pid, v['obligation'], v.get('harness'), str(v.get('note'))[-400:]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    except Exception:
        pass
    level = man.get(pid, {}).get('level', 'proof')
    wall = time.time() - t0
    nontriv = tot['conc_ok'] + tot['bounded_paths']
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'obligations': tot['obligations'], 'discharged': tot['discharged'],
            'checker_cmd': './check.py %s --tier %s' % (pid, tier),
            'trusted_base': sorted(getattr(m, 'TRUSTED', []) if m else []) + [
                'pyvc: path explorer, exact rational-function normaliser, numpy-over-the-reals model (pyvc/*.py)',
                'CPython 3.12 executing the real source; z3 %s' % '.'.join(map(str, __import__('z3').get_version()))],
            'discharged_by_ring_normaliser': tot['by_ring'], 'discharged_by_z3': tot['by_z3'],
            'symbolic_paths': tot['paths'], 'solver_s': round(tot['solver_s'], 2), 'solver_calls': tot['solver_calls'],
            'functions_under_contract': sorted(fns),
            'bounded_obligations_not_counted_as_proved': tot['bounded'],
            'evaluations': tot['conc'], 'distinct_nontrivial': nontriv,
            'rule': 'evaluations: ensures clauses evaluated on the real code with stock numpy on seeded inputs; '
                    'non-trivial: runs that satisfied the precondition and reached the end of the contract, plus '
                    'explored paths of the bounded stand-ins',
            'samples': samples[:4] or [{'none': 'symbolic only'}],
            'explanation': getattr(m, 'EXPLANATION', '') if m else '',
            'harnesses': rows},
        'assumptions': sorted(assumed) + list(getattr(m, 'ASSUMPTIONS', []) if m else []) + [
            'machine floating point is treated as exact real arithmetic; float constants within 4 ulp of a rational '
            'with denominator <= 60000 are read as that rational'],
        'wall_s': round(wall, 2), 'violations': len(violations) + (len(undecided) if not violations else 0)}
    json.dump(ev, open(os.path.join(outdir, pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged (%d ring, %d z3), %d bounded checks, %d paths, %d concrete runs, %.1fs%s' % (
        pid, tier, tot['discharged'], tot['obligations'], tot['by_ring'], tot['by_z3'], tot['bounded'],
        tot['paths'] + tot['bounded_paths'], tot['conc_ok'], wall, '' if rc == 0 else ' -- FAIL'))
    return rc


def replay(path):
    v = json.load(open(path))
    pid = v['property']
    for tier in (v.get('tier', 'quick'), 'thorough'):
        for h in harnesses(pid, tier):
            if h.name == v['harness']:
                r, rr = engine.run_concrete(h, env=v.get('env', {}))
                print(r, json.dumps(rr, default=str)[:2000])
                return 1 if r == 'fail' else 0
    print('no such harness')
    return 2


def selftest():
    """the verifier accepts true claims and refutes false ones"""
    H = engine.Harness

    def good(c):
        x, y = c.real('x'), c.real('y')
        c.prove_eq('binomial', (x + y) ** 2, x * x + 2 * x * y + y * y)
        c.prove('square', x * x + y * y >= 2 * x * y)

    def bad(c):
        x = c.real('x', lo=0, hi=1)
        c.prove('strict', x * x < x + (0.5 if x > 0 else 0))

    def crash(c):
        x = c.real('x', lo=0, hi=1)
        c.prove_eq('inv', (1 / x) * x, 1)

    g, b, k = [engine.run_harness(H(f, searches=5)) for f in (good, bad, crash)]
    ok = not g['failed'] and not g['undecided'] and not g['violations'] and b['failed'] and b['violations'] and k['failed']
    print('selftest', 'ok' if ok else (g, b, k))
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
