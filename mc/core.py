"""The explorer: enumerates the bounded spaces of a property module, runs the
implementation on every case, and reports.

A property module `mc.cNN` provides

    PROP      the property id
    LEVEL     the level claimed
    ASSUME    assumptions, for the evidence
    spaces(tier)  -> list of Space   (finite, enumerated completely)

A Space has a name, a list (or generator function) of JSON-serialisable cases
and `run(case, rec)`, which drives the implementation and compares what it
observes with the reference model by means of rec.*  methods.
"""
import argparse
import collections
import concurrent.futures as cf
import hashlib
import importlib
import itertools
import json
import math
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from mc import env

CASE_LIMIT_S = 240     # a single case takes milliseconds to a few seconds
MAX_REPORT = 1


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Space:
    def __init__(self, name, cases, run, bound, chunk=None):
        self.name = name
        self._cases = cases
        self.run = run
        self.bound = bound
        self.chunk = chunk

    def cases(self):
        return list(self._cases() if callable(self._cases) else self._cases)


class Rec:
    """Collects what one case did, and raises Violation on a mismatch."""

    def __init__(self):
        self.steps = 0       # executions of the implementation / transitions
        self.compared = 0    # observations compared with the reference model
        self.states = 0      # states beyond the case itself (histories, ...)
        self.outcomes = set()
        self.extra = collections.Counter()
        self.tmpdirs = []

    # -- counting
    def step(self, n=1):
        self.steps += n

    def state(self, n=1):
        self.states += n

    def outcome(self, x):
        """Remember a distinct observed outcome (kept as a short hash)."""
        s = x if isinstance(x, str) else repr(x)
        self.outcomes.add(hashlib.md5(s.encode()).hexdigest()[:12])

    def tmp(self):
        d = tempfile.mkdtemp(prefix='mc-')
        self.tmpdirs.append(d)
        return d

    def cleanup(self):
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)

    # -- oracles
    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg):
        self.compared += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12):
        """Elementwise agreement; shapes have to agree, NaN matches NaN."""
        import numpy as np
        self.compared += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.dtype == object:
            g = g.astype(complex) if any(
                isinstance(v, complex) for v in g.ravel()) else g.astype(float)
        if w.dtype == object:
            w = w.astype(float)
        if g.shape != w.shape:
            raise Violation(f'{msg}: shape {g.shape}, expected {w.shape}')
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            raise Violation(
                f'{msg}: got {_short(g)} expected {_short(w)} (at {bad})')

    def same(self, got, want, msg):
        self.compared += 1
        if not (got == want):
            raise Violation(f'{msg}: got {_short(got)} expected {_short(want)}')

    def raises(self, exc, fn, msg):
        self.compared += 1
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(f'{msg}: no {exc} but {_short(r)}')

    def frame(self, got, index, columns, msg):
        """got is a DataFrame with exactly these labels, in this order."""
        import pandas as pd
        self.compared += 1
        if not isinstance(got, pd.DataFrame):
            raise Violation(f'{msg}: {type(got).__name__} is not a DataFrame')
        if index is not None and (len(index) != len(got.index) or
                                  list(got.index) != list(index)):
            raise Violation(f'{msg}: index {_short(list(got.index))} expected '
                            f'{_short(list(index))}')
        if columns is not None and list(got.columns) != list(columns):
            raise Violation(f'{msg}: columns {_short(list(got.columns))} '
                            f'expected {_short(list(columns))}')


def _short(x, n=300):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            x = np.array2string(x, precision=12, threshold=24)
    except Exception:
        pass
    s = x if isinstance(x, str) else repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case):
    """-> (rec, None) or (rec, message)"""
    rec = Rec()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        space.run(case, rec)
        return rec, None
    except Violation as v:
        return rec, str(v)
    except CaseTimeout:
        return rec, f'no answer within {CASE_LIMIT_S} s'
    except MemoryError:
        raise
    except BaseException as e:     # the code under test raised on a valid input
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
        return rec, (f'unexpected {type(e).__name__}: {_short(str(e))} '
                     f'({" < ".join(reversed(where))})')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        rec.cleanup()


_MODULE = None
_SPACES = None


def _work(job):
    si, cases = job
    space = _SPACES[si]
    steps = compared = states = 0
    outcomes = set()
    extra = collections.Counter()
    fails = []
    for k, case in enumerate(cases):
        rec, msg = run_case(space, case)
        steps += rec.steps
        compared += rec.compared
        # states seen in this case: as counted by the driver, or else the
        # distinct outcomes observed
        states += max(rec.states + 1, len(rec.outcomes))
        outcomes |= rec.outcomes
        extra.update(rec.extra)
        if msg is not None:
            fails.append((k, case, msg))
    return si, len(cases), steps, compared, states, outcomes, extra, fails, cases


def key(case):
    return json.dumps(case, sort_keys=True)


def load_findings(prop):
    path = os.path.join(env.ROOT, 'known_findings.json')
    with open(path) as f:
        return [e for e in json.load(f)['findings']
                if e['property'] == prop and e['status'] == 'open']


def main(argv):
    ap = argparse.ArgumentParser(prog='mc')
    ap.add_argument('prop')
    ap.add_argument('--tier', choices=['quick', 'thorough'],
                    default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--space', help='only spaces whose name contains this')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--profile', action='store_true')
    ap.add_argument('--all', action='store_true', help='report every failure')
    a = ap.parse_args(argv)
    env.load()
    global _MODULE, _SPACES
    _MODULE = importlib.import_module('mc.' + a.prop.lower())
    assert _MODULE.PROP == a.prop.upper()
    if a.replay:
        return replay(a)
    t0 = time.time()
    _SPACES = _MODULE.spaces(a.tier)
    if a.space:
        _SPACES = [s for s in _SPACES if a.space in s.name]
    findings = {(e['space'], key(c)): e for e in load_findings(_MODULE.PROP)
                for c in e['cases']}

    jobs = []
    info = {}
    samples = []
    for si, s in enumerate(_SPACES):
        cs = s.cases()
        keys = {key(c) for c in cs}
        if len(keys) != len(cs):
            raise SystemExit(f'ERROR: duplicate cases in {s.name}')
        if not cs:
            raise SystemExit(f'ERROR: no cases in {s.name}')
        info[s.name] = {'cases': len(cs), 'bound': s.bound, 'executions': 0,
                        'comparisons': 0, 'states': 0, 'outcomes': set(),
                        'wall_s': 0.0}
        samples.append({'space': s.name, 'case': cs[len(cs) // 2]})
        n = s.chunk or max(1, min(64, math.ceil(len(cs) / (a.jobs * 4))))
        jobs += [(si, cs[i:i + n]) for i in range(0, len(cs), n)]

    fails, known = [], []
    done = 0
    extra = collections.Counter()
    multiprocessing.set_start_method('fork', force=True)

    def take(res):
        nonlocal done
        si, n, steps, compared, states, outcomes, ex, fl, cases = res
        s = info[_SPACES[si].name]
        s['executions'] += steps
        s['comparisons'] += compared
        s['states'] += states
        s['outcomes'] |= outcomes
        extra.update(ex)
        done += n
        for k, case, msg in fl:
            e = findings.get((_SPACES[si].name, key(case)))
            if e is not None:
                known.append((e, msg))
            else:
                fails.append((si, case, msg, cases[:k + 1]))
        return not fails or a.all

    broken = None
    if a.jobs == 1:
        for j in jobs:
            t1 = time.time()
            ok = take(_work(j))
            info[_SPACES[j[0]].name]['wall_s'] += time.time() - t1
            if not ok:
                break
    else:
        with cf.ProcessPoolExecutor(a.jobs) as ex:
            it = iter(jobs)
            pending = collections.deque()
            stop = False
            try:
                while True:
                    while not stop and len(pending) < a.jobs * 3:
                        j = next(it, None)
                        if j is None:
                            break
                        pending.append((j, ex.submit(_work, j)))
                    if not pending:
                        break
                    j, f = pending.popleft()
                    if not take(f.result()):
                        stop = True
                        for _, g in pending:
                            g.cancel()
                        break
            except cf.process.BrokenProcessPool:
                broken = j
    if broken is not None and not fails:
        # A worker died.  Find the case, each in a process of its own.
        si, cases = broken
        for k, case in enumerate(cases):
            pid = os.fork()
            if pid == 0:
                run_case(_SPACES[si], case)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
                fails.append((si, case,
                              f'process killed by signal {os.WTERMSIG(st)}',
                              cases[:k + 1]))
                break
        else:
            raise SystemExit('ERROR: a worker process died')

    wall = time.time() - t0
    for s in info.values():
        s['distinct_outcomes'] = len(s.pop('outcomes'))
        s['wall_s'] = round(s['wall_s'], 2)
        if not s['wall_s']:
            del s['wall_s']
    level = getattr(_MODULE, 'LEVEL', 'model_checking')
    tot = {k: sum(s[k] for s in info.values())
           for k in ('cases', 'executions', 'comparisons', 'states',
                     'distinct_outcomes')}
    cov = {'spaces': info, 'samples': samples[:12],
           'exhaustive': not fails and a.space is None,
           'distinct_outcomes': tot['distinct_outcomes'],
           'oracle_comparisons': tot['comparisons']}
    if level == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['executions'],
                   traces_validated_against_impl=done - len(fails) - len(known))
    else:
        cov.update(evaluations=tot['executions'],
                   distinct_nontrivial=tot['cases'],
                   rule=getattr(_MODULE, 'RULE', ''))
    if extra:
        cov['counters'] = dict(extra)
    ev = {'property': _MODULE.PROP, 'tier': a.tier,
          'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': level,
          'coverage': cov, 'assumptions': list(_MODULE.ASSUME),
          'wall_s': round(wall, 3), 'violations': len(fails)}
    os.makedirs(os.path.join(env.ROOT, 'evidence'), exist_ok=True)
    if a.space is None:
        path = os.path.join(env.ROOT, 'evidence', _MODULE.PROP + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + '.tmp', path)

    for e in {id(e): e for e, _ in known}.values():
        print(f'KNOWN-FINDING: property={_MODULE.PROP} {e["what"]}')
    print(f'{_MODULE.PROP} {a.tier}: {tot["cases"]} cases in {len(info)} '
          f'spaces, {tot["states"]} states, {tot["executions"]} executions, '
          f'{tot["comparisons"]} comparisons, {tot["distinct_outcomes"]} '
          f'distinct outcomes, {wall:.1f} s')
    if a.profile:
        for n, s in info.items():
            print('  ', n, {k: v for k, v in s.items() if k != 'bound'})
    if a.all:
        for si, case, msg, _ in fails[:40]:
            print('  FAIL', _SPACES[si].name, key(case)[:200], msg)
    if not fails:
        return 0
    si, case, msg, prefix = fails[0]
    path = save_replay(si, case, msg, prefix, a.tier)
    print(f'  space {_SPACES[si].name}: {msg}')
    print(f'  case {key(case)[:1000]}')
    print(f'VIOLATION property={_MODULE.PROP} replay={path}')
    return 1


def save_replay(si, case, msg, prefix, tier):
    d = os.path.join(env.ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    space = _SPACES[si]
    h = hashlib.md5((space.name + key(case)).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{_MODULE.PROP}-{h}.json')
    body = {'property': _MODULE.PROP, 'tier': tier, 'space': space.name,
            'message': msg, 'cases': [case],
            'how': f'cd {env.ROOT} && /opt/venv/bin/python -m mc '
                   f'{_MODULE.PROP} --replay {path}'}
    # Does the case fail on its own in a fresh process, or only after the
    # cases that ran before it in the same process?
    for cases, kind in (([case], 'single'), (prefix, 'history')):
        body['cases'] = cases
        body['kind'] = kind
        with open(path, 'w') as f:
            json.dump(body, f, indent=1)
        try:
            rs = [subprocess.run(
                [sys.executable, '-m', 'mc', _MODULE.PROP, '--replay', path],
                cwd=env.ROOT, capture_output=True, text=True,
                timeout=CASE_LIMIT_S * 2) for _ in range(2)]
        except subprocess.TimeoutExpired:
            body['reproduced'] = 'timeout'
            break
        body['reproduced'] = (all(r.returncode == 1 for r in rs)
                              and rs[0].stdout == rs[1].stdout)
        if body['reproduced']:
            break
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def replay(a):
    with open(a.replay) as f:
        body = json.load(f)
    spaces = _MODULE.spaces(body['tier'])
    space = {s.name: s for s in spaces}[body['space']]
    bad = 0
    for case in body['cases']:
        rec, msg = run_case(space, case)
        if msg is not None:
            print(f'{_MODULE.PROP} {space.name} {key(case)[:1000]}: {msg}')
            bad = 1
    if not bad:
        print('not reproduced')
    return bad
