"""C24: histories of calls on shared arguments.

Explicit-state search over histories: every sequence of two calls of the whole
menu (mc/menu.py), and of three calls of its core, is executed on the real
code, every history in processes of its own (a tree of forks, so that no other
call has been made in the process before).  After every call its result is
compared with the result of the same call alone, and the arguments and the
process-wide settings with what they were."""
import enum
import gc
import itertools
import os
import pickle
import random
import signal
import sys
import traceback
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import families, menu

PROP = 'C24'
ASSUME = [
    'results agree to a relative 1e-7',
    'settings: numpy error handling, error callback and print options, the '
    'random states of numpy and random, pandas options, warning filters, '
    'working directory, environment, module search path, matplotlib '
    'parameters, the published default parameters',
    'the synthetic irradiance functions are random generators and may advance '
    'the random state',
]
CORE = ['cmv.jamaly0', 'cmv.jamaly1', 'cmv.jamaly.opt1', 'cmv.gagne0',
        'cmv.bad.option', 'cmv.dark', 'predict.auto0', 'predict.auto1',
        'predict.given1', 'field.delays0', 'remap1', 'assign0',
        'averaged_tf0', 'averaged_tf1', 'interp_tf0', 'tf_delay.multi0',
        'tf_delay.fit1', 'delays.loop1', 'delays.fft0', 'delays_tf1',
        'camfilter0', 'camfilter.ll1', 'apply_filter1', 'apply_filter.freq0',
        'latlon2utm0', 'latlon2utm1', 'utm2latlon1', 'latlon2lcs0',
        'stats.variability_score0', 'stats.darr1', 'stats.quantile0',
        'clearsky_index0', 'interp_nan0', 'downscale0', 'downscale.default1',
        'multihour1', 'cf.series0', 'cf.series1', 'cf.stats0', 'optimum_subset0']


def mutable_options():
    from pandas._config import config
    out = []

    def walk(d, pre):
        for k in sorted(d):
            if isinstance(d[k], dict):
                walk(d[k], pre + k + '.')
            else:
                out.append((pre + k, repr(d[k])))
    try:
        walk(config._global_config, '')
    except Exception:
        pass
    return out


def settings():
    from solarspatialtools.synthirrad import copula
    from solarspatialtools.dataio import hope_campaign
    import matplotlib
    s = {'numpy.geterr': np.geterr(), 'numpy.geterrcall': np.geterrcall(),
         'numpy.printoptions': sorted(np.get_printoptions().items()),
         'pandas': mutable_options(),
         'warnings': [repr(f) for f in warnings.filters],
         'cwd': os.getcwd(), 'environ': sorted(os.environ.items()),
         'path': list(sys.path),
         'rcParams': [(k, repr(v)) for k, v in
                      dict.items(matplotlib.rcParams)],
         'DEFAULT_PARAMS': copula.DEFAULT_PARAMS, 'URLS': hope_campaign.URLS}
    return {k: repr(v) for k, v in s.items()}


def fork(fn):
    """fn() in a child process; its result"""
    r, w = os.pipe()
    gc.disable()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = ['the call ended the process']
        try:
            signal.alarm(200)
            out = fn()
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out = [f'{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:'
                   f'{tb.lineno})']
        finally:
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ['the call ended the process']


_ALONE = {}


def alone(name):
    """Result of the call in a process that made no other ."""
    if name not in _ALONE:
        def fn():
            p = menu.pool()
            return [None, menu.plain(menu.call(name, p))]
        _ALONE[name] = fork(fn)
    return _ALONE[name]


def one(name, p, snap, sets, hist):
    """Make the call and compare. -> error text or None"""
    gen_ = menu.ops()[name][1]
    st0 = None if gen_ else (np.random.get_state(), random.getstate())
    exp = alone(name)
    res = menu.plain(menu.call(name, p))
    d = menu.differ(exp[1], res) if not exp[0] else exp[0]
    where = f' after {" ".join(hist)}' if hist else ''
    if d:
        return f'result of {name}{where} is not that of the call alone: {d}'
    now = menu.image(p)
    if now != snap:
        for k, a, b in zip(p, snap, now):
            if a != b:
                return f'{name}{where} altered its argument {k}'
        return f'{name}{where} altered its arguments'
    s = settings()
    for k in sets:
        if s[k] != sets[k]:
            return (f'{name}{where} left {k} as {s[k][:200]} instead of '
                    f'{sets[k][:200]}')
    if not gen_:
        st = (np.random.get_state(), random.getstate())
        if (st[0][2:] != st0[0][2:] or st[1] != st0[1]
                or not np.array_equal(st[0][1], st0[0][1])):
            return f'{name}{where} changed the random state'
    return None


def tree(p, snap, sets, hist, name, menus, count):
    """Make the call `name`, then in forks every call of menus[0], ..."""
    e = one(name, p, snap, sets, hist)
    count[0] += 1
    if e or not menus:
        return [e, count[0]]
    hist = hist + [name]
    for b in menus[0]:
        alone(b)
    for b in menus[0]:
        r = fork(lambda: tree(p, snap, sets, hist, b, menus[1:], [0]))
        if len(r) > 1:
            count[0] += r[1]
        if r[0]:
            return [r[0] if len(r) > 1 else f'{b} after {" ".join(hist)}: '
                    + r[0], count[0]]
    return [None, count[0]]


def part(names, k, n):
    return names[k * len(names) // n:(k + 1) * len(names) // n]


def resolve(spec):
    if spec == 'core':
        return CORE
    if spec == 'all':
        return list(menu.ops())
    k, n = spec
    return part(list(menu.ops()), k, n)


def run_tree(case, rec):
    first, specs = case
    menus = [resolve(s) for s in specs]
    names = menus[0] if menus else []
    for b in {first, *names}:
        e = alone(b)
        rec.true(e[0] is None, lambda: f'{b}: {e[0]}')

    def fn():
        p = menu.pool()
        np.random.seed(12345)
        random.seed(6)
        return tree(p, menu.image(p), settings(), [], first, menus, [0])
    r = fork(fn)
    rec.true(len(r) > 1 or r[0] is None, lambda: r[0])
    rec.step(r[1] if len(r) > 1 else 1)
    rec.compared += r[1]
    rec.state(r[1])
    rec.true(r[0] is None, lambda: r[0])
    rec.outcome(first)


def run_path(case, rec):
    """One process that makes a long sequence of calls: every ordered pair
    (name, b) of neighbours, without forks in between."""
    first, spec = case
    names = resolve(spec)
    for b in {first, *names}:
        e = alone(b)
        rec.true(e[0] is None, lambda: f'{b}: {e[0]}')

    def fn():
        p = menu.pool()
        snap, sets = menu.image(p), settings()
        n, hist = 0, []
        for b in names:
            for c in (first, b):
                e = one(c, p, snap, sets, hist[-3:])
                n += 1
                hist.append(c)
                if e:
                    return [f'{e} (call {n} of the process)', n]
        return [None, n]
    r = fork(fn)
    rec.true(len(r) > 1, lambda: r[0])
    rec.step(r[1])
    rec.compared += r[1]
    rec.true(r[0] is None, lambda: r[0])
    rec.outcome(first)


def family_alone(fam, i):
    def fn():
        p = families.pool()
        return [None, menu.plain(families.call(fam, i, p))]
    return fork(fn)


def state():
    return (np.random.get_state(), random.getstate())


def same_state(a, b):
    return (a[0][2:] == b[0][2:] and a[1] == b[1]
            and np.array_equal(a[0][1], b[0][1]))


def run_family(case, rec):
    """In one process: the first call, then all the others of the family (the
    one after it first)."""
    fam, k, n = case
    calls = families.families()[fam]
    label = [c.label for c in calls]
    base = []
    for i in range(len(calls)):
        r = family_alone(fam, i)
        rec.true(r[0] is None, lambda: f'{label[i]}: {r[0]}')
        base.append(r[1])

    def history(first, careful):
        p = families.pool()
        snap, sets, st = families.image(p), settings(), state()
        order = [(first + j) % len(calls) for j in range(len(calls))]
        for j, i in enumerate(order):
            where = f'{label[i]} after {j} calls from {label[first]} on'
            d = menu.differ(base[i], menu.plain(families.call(fam, i, p)))
            if d and (careful or j == 0):
                return [f'result of {where} is not that of the call alone: '
                        f'{d}']
            last = j in (0, len(order) - 1)
            if not (careful or last or d):
                continue
            bad = d
            now = families.image(p)
            if now != snap:
                bad = f'{where} altered its arguments ' + str(
                    [a for a in p if menu.image(p[a]) != menu.image(
                        families.pool()[a])])
            if fam not in GENERATORS and not same_state(st, state()):
                bad = f'{where} changed the random state'
            if careful or last:
                s = settings()
                for a in sets:
                    if s[a] != sets[a]:
                        bad = f'{where} left {a} as {s[a][:200]}'
            if bad:
                return [bad] if careful or j == 0 else ['again']
        return [None]

    for first in range(k, len(calls), n):
        r = fork(lambda: history(first, False))
        if r[0] == 'again':
            r = fork(lambda: history(first, True))
        rec.true(r[0] is None, lambda: r[0])
        rec.step(len(calls))
        rec.compared += len(calls)
        rec.state()
        rec.outcome(label[first])


def run_edited(case, rec):
    """A call, then the caller alters the contents of its own arguments, and
    the call is made again: as if the altered arguments were new."""
    fam, k, n = case
    calls = families.families()[fam] if fam else list(menu.ops())
    for i in range(k, len(calls), n):
        label = calls[i].label if fam else calls[i]

        def make(p):
            try:
                return menu.plain(families.call(fam, i, p) if fam else
                                  menu.call(calls[i], p))
            except Exception as e:
                return ['raised', type(e).__name__]

        def alone():
            return [None, make(families.edit(families.pool()))]

        def again():
            p = families.pool()
            a = make(p)
            return [None, make(families.edit(p)), a]
        a, b = fork(alone), fork(again)
        rec.true(a[0] is None, lambda: f'{label}: {a[0]}')
        rec.true(b[0] is None, lambda: f'{label}: {b[0]}')
        d = menu.differ(a[1], b[1])
        rec.true(d is None, lambda: f'{label} after the caller altered the '
                 f'contents of its arguments: {d}')
        rec.step(3)
        rec.state()
        rec.outcome([label, menu.differ(b[1], b[2]) is None])


def spoil(x, seen, depth=0):
    """The caller overwrites a result that it was given."""
    if id(x) in seen or depth > 6 or isinstance(x, (enum.Enum, type)):
        return
    seen[id(x)] = x
    if isinstance(x, (pd.DataFrame, pd.Series)):
        for i in range(x.shape[1] if x.ndim == 2 else 1):
            try:
                if x.ndim == 2:
                    x.isetitem(i, x.iloc[:, i].values[::-1].copy())
                else:
                    x.iloc[:] = x.values[::-1].copy()
            except (ValueError, TypeError):
                pass
        spoil(x.values, seen, depth + 1)
    elif isinstance(x, np.ndarray):
        if x.ndim and x.flags.writeable:
            x[...] = x[::-1].copy()
            if x.dtype.kind in 'fci':
                x += 1
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen, depth + 1)
        for k in list(x):
            x[k] = 'spoilt'
        x['another'] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, seen, depth + 1)
        if isinstance(x, list):
            x[:] = x[::-1] + ['another']
    elif type(x).__module__.startswith('solarspatialtools'):
        for v in list(vars(x).values()):
            spoil(v, seen, depth + 1)
        for k in list(vars(x)):
            setattr(x, k, 'spoilt')


def run_returned(case, rec):
    """All calls of a family in one process, from one of them on: what the
    earlier ones returned stays as it is; then all of it is overwritten, and
    the calls return the same again for new arguments."""
    fam, first = case
    calls = families.families()[fam] if fam else list(menu.ops())

    def label(i):
        return calls[i].label if fam else calls[i]

    def make(i, p):
        try:
            return families.call(fam, i, p) if fam else menu.call(calls[i], p)
        except Exception as e:
            return ['raised', type(e).__name__]

    def history(first):
        p = families.pool() if fam else menu.pool()
        order = [(first + j) % len(calls) for j in range(len(calls))]
        order = order[:60]
        held, base = [], []
        for i in order:
            r = make(i, p)
            held.append(r)
            base.append(menu.plain(r))
        for i, r, b in zip(order, held, base):
            d = menu.differ(b, menu.plain(r))
            if d:
                return [f'what {label(i)} had returned was altered by a later '
                        f'call ({label(order[-1])} or before): {d}', len(order)]
        seen = {}
        for r in held:
            spoil(r, seen)
        q = families.pool() if fam else menu.pool()
        for i, b in zip(order, base):
            d = menu.differ(b, menu.plain(make(i, q)))
            if d:
                return [f'{label(i)} returns something else after the caller '
                        f'altered earlier results: {d}', len(order)]
        return [None, 2 * len(order)]
    r = fork(lambda: history(first))
    rec.true(r[0] is None, lambda: r[0])
    rec.step(r[1])
    rec.compared += r[1]
    rec.state()
    rec.outcome(label(first))


GENERATORS = ('cop', 'cf')


def spaces(tier):
    q = tier == 'quick'
    menu.ops()
    for name in menu.ops():
        alone(name)
    names = list(menu.ops())
    pairs = [(a, ['core']) for a in CORE] if q else \
        [(a, [[k, 4]]) for a in names for k in range(4)]
    out = [Space('pairs', pairs, run_tree,
                 f'all ordered pairs of the {len(CORE)} core calls (thorough: '
                 f'of all {len(names)}), each in a process of its own',
                 chunk=2),
           Space('paths', [(a, [k, 4]) for a in (CORE if q else names)
                           for k in range(4)],
                 run_path, 'long sequences a b1 a b2 ... of all calls b',
                 chunk=4)]
    fams = families.families()
    out.append(Space(
        'families', [(f, k, m) for f in fams
                     for m in [max(1, len(fams[f]) // 16)] for k in range(m)],
        run_family, 'each of the '
        f'{sum(map(len, fams.values()))} calls in its family of argument '
        'forms and options as the first of a process, then all the others of '
        'the family', chunk=1))
    out.append(Space(
        'edited', [(f, k, m) for f in [None, *fams]
                   for m in [max(1, (len(fams[f]) if f else len(names))
                                 // 24)] for k in range(m)], run_edited,
        'each call twice, the contents of all its arguments altered in place '
        'between', chunk=1))
    out.append(Space(
        'returned', [(f, i) for f in [None, *fams]
                     for i in range(0, len(fams[f] if f else names),
                                    25 if q else 5)], run_returned,
        'sequences of up to 60 calls of a family: earlier results stay, and '
        'overwriting them changes no later result', chunk=1))
    if not q:
        out.append(Space('triples', [(a, ['core', 'core']) for a in CORE],
                         run_tree, f'all sequences of 3 of {len(CORE)} calls',
                         chunk=1))
    return out
