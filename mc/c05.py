"""C05: faulty sensors in every combination against an independent judgement
of every pair."""
import itertools
import math
import numpy as np
import pandas as pd
import warnings
from mc.core import Space
from mc import gen, c04
from mc.c06 import lagged_fast

PROP = 'C05'
ASSUME = [
    'lags and peak correlations are those of the delay estimation (decided by '
    'C06 and C08); which of several failed limits a bad pair is flagged with '
    'is left to the implementation',
    'values within 1e-6 of a limit may go either way',
]
EPS = 1e-6
LEVELS = [.9, .4, .55, .5, .7, .65, .8, .45, 1.]


def fault(v, kind, k):
    n = len(v)
    if kind == 'const':
        return np.full(n, 0.7)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'nan':
        return np.full(n, np.nan)
    if kind == 'onenan':
        v = v.copy()
        v[n // 3 + k] = np.nan
        return v
    if kind == 'other':
        return c04.rough(n, 900 + k)
    if kind == 'overcast':
        return 0.39 * v / np.max(v)
    if kind == 'nearly':           # just bright enough
        return 0.41 * v / np.max(v)
    if kind == 'flat':             # low variation ratio
        return 1 + 0.03 * v
    if kind == 'calm':             # next to no variance
        return 0.8 + 0.002 * v / np.max(v)
    if kind == 'noisy':
        return 0.55 * v + 0.45 * c04.rough(n, 950 + k)
    if kind == 'negative':         # an unrelated sensor below zero
        return -c04.rough(n, 970 + k) - .5
    if kind == 'level':            # a maximum of its own
        return LEVELS[k % 9] * (v / np.max(v))
    if kind == 'twin':             # a second sensor with the same signal
        return v.copy()
    if kind == 'late':             # a clock that is off: apparent velocity
        return np.concatenate((np.full(3, v[0]), v[:-3]))
    raise ValueError(kind)


KINDS = ['const', 'zero', 'nan', 'onenan', 'other', 'overcast', 'flat',
         'calm', 'noisy', 'nearly', 'negative', 'late']
HARMLESS = {'const', 'zero', 'nan', 'onenan', 'other', 'overcast', 'calm',
            'negative'}      # no pair with one of these can be good


def judge(df, pos, out, method, opt, backend):
    """good / bad / undecided for every pair, from the definitions."""
    o = {'ktlim': .4, 'mincorr': .8, 'var_s_lim': .05, 'minvelocity': 0,
         'maxvelocity': 70}
    o.update(opt or {})
    good, sure = [], []
    prs = [tuple(p) for p in np.asarray(out.allpairs)]
    rows = []
    for k, (a, b) in enumerate(prs):
        x, y = df[a].values.astype(float), df[b].values.astype(float)
        tests = []     # value - limit: must be positive
        lag, peak = out.lag[k], out.peak[k]
        ok = a != b and lag != 0 and np.isfinite(lag)
        for v in (x, y):
            w = v[~np.isnan(v)]
            if len(w) == 0:
                ok = False
                continue
            tests.append(np.std(w) - .001)
            # the level of a signal is exact: it meets a limit it equals
            tests.append(1 if np.max(w) >= o['ktlim'] else -1)
            if method == 'jamaly':
                tests.append(1 - np.mean(w) / np.max(w) - o['var_s_lim'])
        if np.isnan(peak) or np.isnan(x).any() or np.isnan(y).any():
            ok = False
        if ok and method == 'jamaly':
            c = lagged_fast(x - x.mean(), y - y.mean())[1]
            with np.errstate(all='ignore'):
                mean = np.mean(c / (len(x) * x.std() * y.std()))
            tests += [peak - o['mincorr'], 1 - mean / peak - o['mincorr']]
            d = pos.loc[b].values - pos.loc[a].values
            v = np.hypot(*d) / abs(lag)
            # along an axis a whole velocity is exact, and excluded itself
            tests += [-1 if v == lim and 0 in d and v % 1 == 0 else gap
                      for lim, gap in ((o['minvelocity'],
                                        v - o['minvelocity']),
                                       (o['maxvelocity'],
                                        o['maxvelocity'] - v))]
            if v == 0:         # at one place: no velocity at all
                ok = False
        tests = np.array(tests)
        good.append(ok and bool(np.all(tests > 0)))
        sure.append(not ok or bool(np.any(tests < -EPS)) or
                    bool(np.all(tests > EPS)))
    good, sure = np.array(good), np.array(sure)
    if method == 'gagne':
        for level in (.99, .95, .9):
            use = out.peak >= level
            if np.sum(good & use) >= 12:
                break
        good = good & use
        sure = sure & (np.abs(out.peak - level) > EPS) | ~good
    return prs, good, sure


def estimate(pos, prs, good, lag, method):
    """The motion from the good pairs: closed forms."""
    V = np.array([pos.loc[b].values - pos.loc[a].values for a, b in prs],
                 float)[good]
    t = lag[good]
    if method == 'gagne':
        S = np.linalg.lstsq(V, t, rcond=None)[0]
        return S / np.dot(S, S), None
    W = V / t[:, None]
    C = np.cov(W.T, bias=True)
    val, vec = np.linalg.eigh(C)
    u = vec[:, 0]
    w = W @ u
    m = np.median(w)
    err = (np.percentile(w, 60) - np.percentile(w, 40)) / m
    return u * m, (abs(err), val)


def run_case(case, rec, faults, opt, ref=None):
    from solarspatialtools import cmv
    method = case['method']
    df, pos, names, arr, speed, ang = c04.build(case, *case['pq'])
    for k, j in case.get('together', ()):
        pos.loc[names[k]] = pos.loc[names[j]]
    for k, kind in faults:
        df[names[k]] = fault(df[names[k]].values, kind, k)
    what = f'faults {faults} options {opt} references {ref} {case}'
    kw = dict(method=method, options=opt, delay_backend=case['backend'])
    rec.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s, a, o = cmv.compute_cmv(df, pos, ref, **kw)
        # the lags and correlations of the pairs, also if all are bad
        from solarspatialtools import signalproc
        prs = np.asarray(o.allpairs)
        A, B = df[prs[:, 0]], df[prs[:, 1]]
        if case['backend'] == 'xcorr':
            lag, ex = signalproc.compute_delays(A, B, 'loop', scaling='coeff')
        else:
            lag, ex = signalproc.compute_delays_tf(
                A, B, navgs=5, coh_limit=.6, freq_limit=.02, method='multi',
                overlap=.5, window='hamming', compute_xcorr=True)
    o.lag = np.asarray(lag, float)
    o.peak = np.asarray(ex['peak_corr'], float)
    prs, good, sure = judge(df, pos, o, method, opt, case['backend'])
    flags = np.array([f.name for f in o.pair_flag])
    is_good = flags == 'GOOD'
    wrong = (is_good != good) & sure
    rec.true(not wrong.any(), lambda: 'pairs '
             f'{[(prs[k], flags[k], bool(good[k])) for k in np.flatnonzero(wrong)]}'
             f' are flagged other than their limits say (last: good); {what}')
    if np.sum(is_good) <= 1:
        rec.true(s == 0 and a == 0 and o.flag.name == 'ALLBAD',
                 f'{is_good.sum()} good pairs, but {s}, {a}, {o.flag} {what}')
        rec.extra['all bad'] += 1
    else:
        v, q = estimate(pos, prs, is_good, o.lag, method)
        W = [pos.loc[prs[k][1]].values - pos.loc[prs[k][0]].values
             for k in np.flatnonzero(is_good)]
        defined = np.linalg.matrix_rank(np.array(W, float)) == 2
        if q is not None:
            defined = defined and q[1][1] - q[1][0] > 1e-6 * q[1][1]
        if defined:
            rec.close(s, np.hypot(*v), 'speed from the good pairs ' + what,
                      rtol=1e-4)
            rec.true(c04.angdiff(a, math.atan2(v[1], v[0])) < 1e-4,
                     lambda: f'direction {a} instead of '
                     f'{math.atan2(v[1], v[0])} {what}')
            rec.extra['estimates'] += 1
        if method == 'gagne':
            few = np.sum(is_good) < 12
            rec.true((o.flag.name == 'ALLBAD') == bool(few),
                     f'{np.sum(is_good)} good pairs, flag {o.flag} {what}')
        elif defined and abs(q[0] - .4) > 1e-3:
            rec.true((o.flag.name == 'TREND') == bool(q[0] > .4) and
                     o.flag.name in ('TREND', 'GOOD'),
                     f'flag {o.flag} with error index {q[0]} {what}')
    rec.outcome(tuple(flags) + (o.flag.name,))
    return (s, a, o), df, pos, names


def without(case, rec, faults, opt, got, df, pos, names):
    """As if the faulty sensors were not there."""
    from solarspatialtools import cmv
    gone = [names[k] for k, kind in faults if kind in HARMLESS]
    if len(gone) != len(faults) or len(gone) == len(names):
        return
    keep = [n for n in names if n not in gone]
    xy = pos.loc[keep].values.astype(float)
    if len(keep) > 2 and np.linalg.matrix_rank(xy - xy[0]) < 2:
        return         # sensors in a line do not determine the motion
    rec.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s, a, o = cmv.compute_cmv(df[keep], pos.loc[keep],
                                  method=case['method'], options=opt,
                                  delay_backend=case['backend'])
    what = f'with and without {gone} {faults} {opt} {case}'
    rec.close(got[0], s, 'speed ' + what, rtol=1e-6)
    rec.true(c04.angdiff(got[1], a) < 1e-6, f'direction {got[1]}, {a} {what}')
    rec.same(got[2].flag, o.flag, 'flag ' + what)


def run_faults(case, rec):
    nl = len(c04.LAYOUTS[case['layout']])
    for faults in itertools.product(*[[(k, f) for f in fs] for k, fs in
                                      case['sites']]):
        for opt in case['options']:
            r = run_case(case, rec, faults, opt)
            without(case, rec, faults, opt, *r)
    rec.state(nl)


def run_options(case, rec):
    faults = [tuple(f) for f in case['faults']]
    keys = sorted(case['grid'])
    for vals in itertools.product(*[case['grid'][k] for k in keys]):
        opt = {k: v for k, v in zip(keys, vals) if v is not None}
        run_case(case, rec, faults, opt or None)


def run_exact(case, rec):
    """Limits that are met exactly: the levels of the signals themselves
    and the velocities of pairs along an axis."""
    method = case['method']
    df, pos, names, *_ = c04.build(case, *case['pq'])
    for k in [None] + list(range(min(9, len(names)))):
        faults = [(j, 'level') for j in range(len(names))]
        opts = [{'ktlim': LEVELS[k % 9]}] if k is not None else [
            {a: v} for a in ('minvelocity', 'maxvelocity')
            for v in (5, 10, 20, 40)]
        for opt in opts:
            if method == 'gagne' and 'ktlim' not in opt:
                continue
            run_case(case, rec, faults, opt)


def run_few(case, rec):
    """Fewer and fewer usable sensors, all subsets."""
    nl = len(c04.LAYOUTS[case['layout']])
    for mask in itertools.product((0, 1), repeat=nl):
        faults = [(k, case['kind']) for k in range(nl) if mask[k]]
        r = run_case(case, rec, faults, None)
        if sum(mask) < nl - 1:
            without(case, rec, faults, None, *r)


def run_refs(case, rec):
    df, pos, names, *_ = c04.build(case, *case['pq'])
    for f in case['faults']:
        for kind, ref, refs in c04.ref_forms(names):
            run_case(case, rec, [tuple(f)], None, ref)


def spaces(tier):
    deep = tier == 'thorough'
    base = dict(n=400, dt=1, tz=None, labels='str', backend='xcorr', salt=2,
                layout='irr', map='shear', pq=[1, 2])
    tf = dict(base, backend='tf', n=1200)
    both = [dict(b, method=m) for b in (base, tf) for m in ('jamaly', 'gagne')]
    one = [dict(b, sites=[[k, KINDS + ['twin']]], options=[None], pq=pq)
           for b in both for k in range(7) for pq in ([1, 2], [-3, 1])
           if deep or (b['backend'] == 'xcorr' and (k + pq[0]) % 2) or k == 3]
    two = [dict(b, sites=[[i, [f]], [j, KINDS]], options=[None])
           for b in both for i, j in itertools.combinations(range(7), 2)
           for f in KINDS
           if deep or b['backend'] == 'xcorr' and (i * 3 + j) % 5 == 0
           or (i, j) == (1, 3)]
    three = [dict(b, sites=[[0, [f]], [3, KINDS], [5, KINDS]], options=[None])
             for b in both[:2] for f in KINDS] if deep else []
    G = {'mincorr': [None, .5, .9, .97, .999], 'ktlim': [None, .1, .95, 1.2],
         'var_s_lim': [None, 0, .3, .9],
         'minvelocity': [None, 5, 12, 50], 'maxvelocity': [None, 9, 14, 200]}
    opts = []
    for a, b in itertools.combinations(sorted(G), 2):
        for fl in ([], [[2, 'noisy']], [[1, 'nearly'], [4, 'flat']],
                   [[6, 'overcast']]):
            opts.append(dict(base, method='jamaly', faults=fl,
                             grid={a: G[a], b: G[b]}))
    opts += [dict(b, faults=fl, grid={'ktlim': [None, 0, .1, .38, .5, .95,
                                                1.2]})
             for b in (dict(base, method='gagne'), dict(tf, method='gagne'),
                       dict(tf, method='jamaly'))
             for fl in ([], [[2, 'overcast']], [[1, 'nearly'], [4, 'flat']],
                        [[0, 'onenan'], [3, 'overcast']])]
    few = [dict(b, kind=k, layout=l) for b in both
           for k in ('const', 'nan', 'other', 'overcast')
           for l in ('neg', 'ell')
           if deep or b['backend'] == 'xcorr' or l == 'ell']
    refs = [dict(b, faults=[[k, f] for f in KINDS], labels=lb)
            for b in both
            for k, lb in ((0, 'str'), (3, 'int'), (6, 'cmb'), (2, 'nest'))
            if deep or b['backend'] == 'xcorr']
    exact = [dict(b, layout=l, map='unit', pq=pq) for b in both
             for l in ('irr', 'grid', 'neg')
             for pq in ([1, 2], [2, -1], [4, 1])
             if deep or b['backend'] == 'xcorr' or pq == [2, -1]]
    exact += [dict(b, layout='field', map='unit', pq=[2, 1], n=1201)
              for b in both[:2]]
    same = [dict(b, together=t, sites=[[k, KINDS + ['twin']], [j, ['late']]],
                 options=[None, dict(ktlim=.3)])
            for b in both for t in ([[0, 4]], [[2, 5], [6, 5]])
            for k, j in ((1, 0), (3, 2), (4, 6), (5, 2))
            if deep or b['backend'] == 'xcorr']
    return [
        Space('together', same, run_faults, 'several sensors at one place'),
        Space('one', one, run_faults, 'every fault at every sensor'),
        Space('two', two, run_faults, 'pairs of faults'),
        Space('options', opts, run_options, 'pairs of options x their values'),
        Space('exact', exact, run_exact, 'limits equal to the levels of the '
              'signals and to velocities'),
        Space('few', few, run_few, 'all subsets of unusable sensors'),
        Space('references', refs, run_refs, 'faults x reference forms'),
    ] + ([Space('three', three, run_faults, 'triples of faults')]
         if deep else [])
