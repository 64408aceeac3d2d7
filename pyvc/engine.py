"""
Running harnesses: exhaustive symbolic exploration, replay, seeded search.
"""
import contextlib
import importlib
import io
import os
import random
import sys
import time
import traceback
import warnings

REPO = os.environ.get('PYVC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

from . import sym as S
from .sym import (Stats, SymCtx, ConcCtx, Unsupported, PathEnd, PathLimit, Reject, Failure,
                  code_frames)
from . import npmodel
import z3

MODS = ['mesh', 'fem', 'function', 'assembler', 'spd', 'solver', 'gmrf']


def mod(name):
    return importlib.import_module(name)


@contextlib.contextmanager
def np_over_reals(names=MODS):
    saved = []
    m = npmodel.make()
    for n in names:
        if n not in sys.modules:
            mod(n)
    for n in names:
        if n in sys.modules:
            md = sys.modules[n]
            if hasattr(md, 'np'):
                saved.append((md, md.np))
                md.np = m
    try:
        yield m
    finally:
        for md, v in saved:
            md.np = v


@contextlib.contextmanager
def patched(*triples):
    """temporarily set attributes: (object, name, value)"""
    saved = []
    try:
        for o, n, v in triples:
            had = n in vars(o) if hasattr(o, '__dict__') else True
            saved.append((o, n, had, getattr(o, n, None)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, had, v in reversed(saved):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)


class Harness(object):
    def __init__(self, fn, name=None, kind='proof', params=None, searches=30, budget=240,
                 bound=None, opts=None, concrete=True, tol=1e-7, heavy=False):
        self.fn = fn
        self.name = name or fn.__name__
        self.kind = kind              # 'proof' (for all values) or 'bounded'
        self.params = params or {}
        self.searches = searches      # concrete runs used as cross-check / search
        self.budget = budget
        self.bound = bound
        self.opts = opts or {}
        self.concrete = concrete
        self.tol = tol
        self.heavy = heavy

    def call(self, ctx):
        return self.fn(ctx, **self.params)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def _exc_info(e):
    fr = code_frames(e.__traceback__, SRC)
    last = traceback.extract_tb(e.__traceback__)[-1]
    return fr, '%s: %s (at %s:%s)' % (type(e).__name__, e, os.path.basename(last.filename), last.lineno)


def run_concrete(h, env=None, seed=None, st=None):
    """-> ('ok'|'reject'|'fail'|'unsupported', record)"""
    st = st or Stats()
    cx = ConcCtx(st, env=env, rng=random.Random(seed) if seed is not None else random.Random(0), tol=h.tol)
    S.CUR = cx
    try:
        with quiet():
            h.call(cx)
        return 'ok', {'env': cx.env, 'n': cx.n_ob}
    except Reject:
        return 'reject', {'env': cx.env}
    except Failure as f:
        return 'fail', f.rec
    except Unsupported as e:
        return 'unsupported', {'note': str(e), 'env': cx.env}
    except Exception as e:
        fr, msg = _exc_info(e)
        if not fr:
            return 'error', {'note': msg, 'env': cx.env, 'tb': traceback.format_exc()}
        return 'fail', {'obligation': 'no-exception', 'note': msg + ' via ' + ' <- '.join(reversed(fr[-3:])),
                        'env': dict(cx.env)}
    finally:
        S.CUR = None


def run_symbolic(h):
    st = Stats()
    t0 = time.time()
    S.restart_clock()
    deadline = S.clock() + h.budget
    work = [[]]
    note = None
    while work:
        if S.clock() > deadline:
            st.undecided.append({'obligation': 'exploration', 'note': 'time budget exhausted with %d paths open' % len(work)})
            break
        prefix = work.pop()
        opts = dict(h.opts)
        opts['deadline'] = deadline
        cx = SymCtx(st, prefix, opts)
        S.CUR = cx
        try:
            with quiet(), np_over_reals():
                h.call(cx)
            st.paths += 1
            if st.covered < 3:
                r, m = cx._check([])
                if r == z3.sat:
                    st.covered += 1
        except PathEnd:
            pass
        except Unsupported as e:
            fr = code_frames(e.__traceback__, SRC)
            st.undecided.append({'obligation': 'translation', 'note': 'outside the verifier: %s %s' % (e, fr[-1:])})
        except PathLimit as e:
            st.undecided.append({'obligation': 'exploration', 'note': str(e)})
        except Exception as e:
            fr, msg = _exc_info(e)
            r, m = cx._check([], 20000)
            if r != z3.unsat:
                st.failed.append({'obligation': 'no-exception',
                                  'note': msg + ' via ' + ' <- '.join(reversed(fr[-3:])),
                                  'tb': traceback.format_exc()[-1500:],
                                  'env': cx.model_env(m)})
        finally:
            S.CUR = None
        work.extend(cx.alts)
        if len(st.failed) >= 4 or len(st.undecided) >= 4:
            break
        if st.paths > h.opts.get('max_paths', 200000):
            st.undecided.append({'obligation': 'exploration', 'note': 'path limit'})
            break
    st.wall = time.time() - t0
    return st


def run_harness(h, seed=1, tier='quick'):
    """the complete job for one harness; returns a plain dict"""
    out = {'harness': h.name, 'kind': h.kind, 'params': repr(h.params), 'bound': h.bound,
           'failed': [], 'undecided': [], 'violations': []}
    t0 = time.time()
    st = Stats()
    if h.opts.get('symbolic', True):
        st = run_symbolic(h)
        out['failed'] = st.failed
        out['undecided'] = st.undecided
        if st.paths and not st.covered and not st.failed:
            out['undecided'].append({'obligation': 'vacuity', 'note': 'no completed path is reachable'})
        if not st.paths and not st.failed and not st.undecided:
            out['undecided'].append({'obligation': 'vacuity', 'note': 'no path was explored to its end'})
        if not st.ob and not st.failed and not st.undecided:
            out['undecided'].append({'obligation': 'vacuity', 'note': 'no obligation was generated'})
    cst = Stats()
    # replay the counter-models on the real code
    for rec in st.failed:
        if not h.concrete:
            continue
        r, rr = run_concrete(h, env=rec.get('env', {}), st=cst)
        rec['replay'] = r
        if r == 'fail':
            out['violations'].append({'harness': h.name, 'obligation': rec['obligation'], 'env': rr['env'],
                                      'note': rr['note'], 'found_by': 'counter-model of obligation %s replayed' % rec['obligation']})
            break
    # concrete cross-check / search on the real code
    n_ok = n_rej = n_ev = 0
    errs = []
    samples = []
    if h.concrete:
        n = h.searches * (8 if tier == 'thorough' else 1)
        if (st.failed or st.undecided) and not out['violations']:
            n = max(n * 4, 150)
        rnd = random.Random('%s/%s' % (seed, h.name))
        tend = time.time() + (60 if tier == 'quick' else 300)
        for i in range(n):
            if time.time() > tend:
                break
            r, rr = run_concrete(h, seed=rnd.getrandbits(48), st=cst)
            if r == 'ok':
                n_ok += 1
                n_ev += rr['n']
                if len(samples) < 2:
                    samples.append(rr['env'])
            elif r == 'reject':
                n_rej += 1
            elif r == 'fail':
                out['violations'].append({'harness': h.name, 'obligation': rr['obligation'], 'env': rr['env'],
                                          'note': rr['note'], 'found_by': 'seeded search'})
                break
            else:
                errs.append(rr.get('note'))
                if len(errs) > 3:
                    break
    out.update(paths=st.paths, covered=st.covered, obligations=st.ob, solver_s=st.solver_s,
               solver_calls=st.solver_calls, assumed=sorted(st.assumed | cst.assumed),
               fns=sorted(st.fns | cst.fns), concrete_ok=n_ok, concrete_rejected=n_rej,
               concrete_evals=n_ev, errors=errs, samples=samples, wall=time.time() - t0,
               feas_unknown=st.feas_unknown)
    return out


def setup_path():
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
