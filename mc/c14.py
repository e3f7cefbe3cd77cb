"""C14: variability metrics against their definitions, by plain loops."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C14'
ASSUME = ['ramps of equal size count half as larger (mean rank)',
          'at least two samples; the period of irregular series is the '
          'median one',
          'averaging bins start at midnight of the first day']

NAN = math.nan


def diffs(v, tau):
    return [v[i] - v[i - tau] if i >= tau else NAN for i in range(len(v))]


def ref_vs(v, tau=1):
    r = [abs(d) for d in diffs(v, tau) if d == d]
    n = len(r)
    best = NAN
    for a in r:
        larger = sum(1 for b in r if b > a)
        ties = sum(1 for b in r if b == a) - 1
        p = a * (larger + ties / 2) / n
        best = p if best != best or p > best else best
    return best


def ref_darr(v, tau=1):
    return math.fsum(abs(d) for d in diffs(v, tau) if d == d)


def ref_path(v, dt):
    return math.fsum(math.hypot(d, dt) for d in diffs(v, 1) if d == d)


def ref_vi(g, c, dt, norm):
    dt = dt / 60
    r = ref_path(g, dt) / ref_path(c, dt)
    return r * math.sqrt(dt) if norm else r


def average(v, secs, period, offset):
    """Means over bins of `period` that start at midnight; a bin without any
    sample is missing.  secs: times after the first sample [ns]."""
    b = [(offset + s) // period for s in secs]
    out = []
    for k in range(b[0], b[-1] + 1):
        w = [x for x, q in zip(v, b) if q == k and x == x]
        out.append(math.fsum(w) / len(w) if w else NAN)
    return out


STARTS = {'midnight': '2020-06-01 00:00:00', 'noon': '2020-06-01 12:00:00',
          'odd': '2020-06-01 10:00:07'}


def base(start):
    t = pd.Timestamp(STARTS[start])
    return (t - t.normalize()).value if hasattr(t - t.normalize(), 'value') \
        else int((t - t.normalize()).total_seconds() * 1e9)


SHORT = ('uint8', 'uint16', 'int16')


def ns(x):
    return int(round(x * 1e9))


def run_series(case, rec):
    """All series over the alphabet: no averaging, all increments."""
    from solarspatialtools import stats
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case['tz'])
    vals = case['vals']
    for rest in itertools.product(vals, repeat=n - 1):
        v = [case['first']] + list(rest)
        s = pd.Series(v, index=ix, name='q', dtype=case['dtype'])
        v = [NAN if x is None else float(x) for x in v]
        for tau in range(1, n):
            for pct in (False, True):
                k = 0.1 if pct else 1.0
                for ma in ((False, True) if tau == 1 else (False,)):
                    rec.step(2)
                    a = stats.variability_score(s, tau=tau, moving_avg=ma,
                                                pct=pct)
                    rec.close(a, k * ref_vs(v, tau), f'VS {v} {tau} {pct}',
                              rtol=1e-9)
                    b = stats.darr(s, tau=tau, moving_avg=ma, pct=pct)
                    rec.close(b, k * ref_darr(v, tau), f'DARR {v} {tau} {pct}',
                              rtol=1e-9)
                    rec.outcome((round(float(a), 6), round(float(b), 6)))
        if all(x == x for x in v):
            rec.step(2)
            t = s + 500 if case['dtype'] is not None and \
                case['dtype'] != 'uint8' else s * 1. + 0.5
            rec.close(stats.variability_score(t), ref_vs(v), 'VS plus constant',
                      rtol=1e-9, atol=1e-9)
            rec.close(stats.darr(t), ref_darr(v), 'DARR plus constant',
                      rtol=1e-9, atol=1e-9)


def run_vi(case, rec):
    from solarspatialtools import stats
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case['tz'])
    clears = [[600. + 0 * i for i in range(n)], [600. + 5 * i * i
                                                 for i in range(n)]]
    for v in itertools.product(case['vals'], repeat=n):
        v = list(v)
        for c in clears:
            g, q = pd.Series(v, index=ix, name='x'), pd.Series(c, index=ix)
            if case.get('dtype'):
                g, q = g.astype(case['dtype']), q.astype(case['dtype'])
            for norm in (False, True):
                rec.step()
                got = stats.variability_index(g, q, norm=norm)
                want = ref_vi(v, c, dt, norm)
                rec.close(got, want, f'VI {v} / {c} dt {dt} norm {norm}',
                          rtol=1e-9)
                rec.outcome(round(float(got), 6))
            rec.step(2)
            rec.close(stats.variability_index(g + 64, q), ref_vi(v, c, dt, False),
                      'ghi plus constant', rtol=1e-9)
            rec.close(stats.variability_index(g, q + 64), ref_vi(v, c, dt, False),
                      'clear sky plus constant', rtol=1e-9)
    rec.raises(TypeError, lambda: stats.variability_index(np.array(v), q),
               'array as ghi')


def run_average(case, rec):
    """Averages over several steps."""
    from solarspatialtools import stats
    n, dt, tau = case['n'], case['dt'], case['tau']
    drop = case['drop']
    secs = [ns(i * dt) for i in range(n) if i not in drop]
    ix = gen.tindex(n, dt, case['tz'], STARTS[case['start']])
    ix = ix[[i for i in range(n) if i not in drop]]
    off = base(case['start'])
    for salt in range(case['salts']):
        h = np.round(gen.hash01(2 * n, salt) * 40) * 25
        v = [float(x) for i, x in enumerate(h[:n]) if i not in drop]
        c = [700. + 3 * i * i for i in range(n) if i not in drop]
        s = pd.Series(v, index=ix)
        q = pd.Series(c, index=ix)
        va = average(v, secs, ns(tau * dt), off) if tau > 1 else v
        ca = average(c, secs, ns(tau * dt), off) if tau > 1 else c
        snap = gen.snapshot([s, q])
        for pct in (False, True):
            k = .1 if pct else 1.
            rec.step(2)
            what = f'{v} tau {tau} dt {dt} pct {pct}'
            rec.close(stats.variability_score(s, tau=tau, pct=pct),
                      k * ref_vs(va), 'VS of averages ' + what, rtol=1e-9)
            rec.close(stats.darr(s, tau=tau, pct=pct), k * ref_darr(va),
                      'DARR of averages ' + what, rtol=1e-9, atol=1e-9)
        if ref_path(va, 1.) > 0:    # at least one step
            for norm in (False, True):
                rec.step()
                rec.close(stats.variability_index(s, q, moving_avg_tau=tau,
                                                  norm=norm),
                          ref_vi(va, ca, tau * dt, norm),
                          f'VI of averages {v} tau {tau} dt {dt} {norm}',
                          rtol=1e-9)
        rec.same(gen.snapshot([s, q]), snap, 'the arguments')
        rec.outcome([round(x, 3) for x in va])


def run_large(case, rec):
    """Thousands of samples."""
    from solarspatialtools import stats
    n, dt, tau = case['n'], case['dt'], case['tau']
    ix = gen.tindex(n, dt, 'UTC', STARTS['noon'])
    v = np.round(gen.hash01(n, 1) * 977) + np.round(gen.hash01(n, 2), 4)
    c = 700. + np.sin(np.arange(n) / 50.) * 300
    off = base('noon')
    secs = [ns(i * dt) for i in range(n)]
    S, C = pd.Series(v, index=ix), pd.Series(c, index=ix)
    for ma in (True, False):
        w = average(list(v), secs, ns(tau * dt), off) if ma else None
        for pct in (False, True):
            k = .1 if pct else 1.
            d = np.abs(np.diff(w) if ma else v[tau:] - v[:-tau])
            s = np.sort(d)
            m = len(d)
            rank = (m - np.searchsorted(s, d, 'right') +
                    (np.searchsorted(s, d, 'right') -
                     np.searchsorted(s, d, 'left') - 1) / 2) / m
            rec.step(2)
            rec.close(stats.variability_score(S, tau=tau, moving_avg=ma,
                                              pct=pct), k * np.max(d * rank),
                      f'VS {ma} {pct} {case}', rtol=1e-9)
            rec.close(stats.darr(S, tau=tau, moving_avg=ma, pct=pct),
                      k * d.sum(), f'DARR {ma} {pct} {case}', rtol=1e-9)
    cc = average(list(c), secs, ns(tau * dt), off)
    w = average(list(v), secs, ns(tau * dt), off)
    for norm in (False, True):
        rec.step()
        rec.close(stats.variability_index(S, C, moving_avg_tau=tau, norm=norm),
                  ref_vi(w, cc, tau * dt, norm), f'VI {norm} {case}',
                  rtol=1e-9)
    rec.outcome((n, tau))


def run_table(case, rec):
    """Columns are independent and keep their labels."""
    from solarspatialtools import stats
    n, dt, tau = case['n'], case['dt'], case['tau']
    ix = gen.tindex(n, dt, case['tz'], STARTS['noon'])
    cols = {}
    for k, lab in enumerate(gen.labels(case['labels'], case['m'])):
        v = np.round(gen.hash01(n, 7 * k + case['salt']) * 40) * 25.
        if k in case['gap']:
            v[n // 2] = np.nan
        cols[lab] = v
    df = pd.DataFrame(cols, index=ix)
    cs = pd.DataFrame({lab: 500 + (3. + k) * np.arange(n) ** 1.5
                       for k, lab in enumerate(cols)}, index=ix)
    snap = gen.snapshot(df)
    off = base('noon')
    secs = [ns(i * dt) for i in range(n)]
    for ma in (True, False):
        for pct in (False, True):
            rec.step(2)
            a = stats.variability_score(df, tau=tau, moving_avg=ma, pct=pct)
            b = stats.darr(df, tau=tau, moving_avg=ma, pct=pct)
            for got, fn, name in ((a, ref_vs, 'VS'), (b, ref_darr, 'DARR')):
                rec.true(isinstance(got, pd.Series), f'{name} per column')
                rec.same(list(got.index), list(df.columns), f'{name} labels')
                for lab in df.columns:
                    v = list(df[lab].values)
                    w = fn(average(v, secs, ns(tau * dt), off)) if ma and \
                        tau > 1 else fn(v, tau)
                    rec.close(got[lab], w * (.1 if pct else 1.),
                              f'{name} of {lab}, tau {tau} ma {ma} pct {pct}',
                              rtol=1e-9, atol=1e-9)
    gaps = [lab for k, lab in enumerate(df.columns) if k in case['gap']]
    for norm in (False, True):
        rec.step(2)
        a = stats.variability_index(df, cs, moving_avg_tau=tau, norm=norm)
        first = df.columns[0]
        b = stats.variability_index(df, cs[first], moving_avg_tau=tau,
                                    norm=norm)
        rec.same(list(a.index), list(df.columns), 'VI labels')
        for lab in df.columns:
            if lab in gaps:     # the definition leaves missing values open
                rec.step()
                rec.close(a[lab], stats.variability_index(
                    df[lab], cs[lab], moving_avg_tau=tau, norm=norm),
                    f'VI of {lab} with a gap, as if alone', rtol=1e-9)
                continue
            v = average(list(df[lab].values), secs, ns(tau * dt), off)
            c = average(list(cs[lab].values), secs, ns(tau * dt), off)
            c0 = average(list(cs[first].values), secs, ns(tau * dt), off)
            rec.close(a[lab], ref_vi(v, c, tau * dt, norm), f'VI of {lab}',
                      rtol=1e-9)
            rec.close(b[lab], ref_vi(v, c0, tau * dt, norm),
                      f'VI of {lab} to one clear sky', rtol=1e-9)
    rec.same(gen.snapshot(df), snap, 'the argument')
    rec.outcome([round(float(x), 4) for x in a])


def spaces(tier):
    deep = tier == 'thorough'
    ser = []
    for n in ((2, 3, 4, 5, 6) if deep else (2, 3, 4, 5)):
        small = n >= 5
        for dt, tz in ((1.0, None), (0.1, 'UTC')):
            for vals, dtype in (([0., 1., 3., -2.], None), ([0, 5, 1000], 'int'),
                                ([0., 400., None], 'float'),
                                ([0, 7, 250], 'uint8'),
                                ([0, 30, 1300], 'uint16'),
                                ([-20000, 0, 32000], 'int16')):
                if dtype in SHORT and (n > 4 or tz):
                    continue
                if small and (len(vals) > 3 or tz) and not (deep and n == 5):
                    continue
                for f in vals:
                    ser.append(dict(n=n, dt=dt, tz=tz, vals=vals, dtype=dtype,
                                    first=f))
    vi = [dict(n=n, dt=dt, tz=tz, vals=[0., 30., 700.])
          for n in ((2, 3, 4, 5) if deep else (2, 3, 4))
          for dt, tz in ((1.0, None), (0.1, 'UTC'), (60., 'Etc/GMT+5'),
                         (15., None), (300., None), (3600., None))]
    vi += [dict(n=n, dt=1., tz=None, vals=[0., 30., 700.], dtype=d)
           for n in (2, 3) for d in ('uint16', 'int16', 'int32', 'int')]
    av = [dict(n=n, dt=dt, tau=tau, tz=tz, start=st, drop=dr,
               salts=6 if deep else 3)
          for n in ((7, 12, 13, 31) if deep else (7, 12))
          for dt in (0.1, 0.25, 1.0, 7.0, 60., 300.)
          for tau in (1, 2, 3, 5, 10, 2.5) if tau * dt * 10 == int(tau * dt * 10)
          or dt == .25
          for tz in (None, 'UTC', 'Etc/GMT+5')
          for st in STARTS
          for dr in ([], [3], [3, 4, 5, 6, 7]) if not (n == 7 and dr)]
    tab = [dict(n=n, dt=dt, tau=tau, tz='UTC', m=m, salt=s, labels=l, gap=g)
           for n in (9, 14) for dt in (.5, 60.) for tau in (1, 2, 4)
           for m in (1, 2, 4) for s in ((0, 1, 2) if deep else (0,))
           for l in ('str', 'int') for g in ([], [0], [1])]
    tab += [dict(n=9, dt=1., tau=t, tz='UTC', m=60, salt=1, labels='cmb',
                 gap=[7, 44]) for t in (1, 2)]
    large = [dict(n=n, dt=dt, tau=t) for n in (300, 5000, 86400)
             for dt, t in ((1., 1), (1., 60), (.5, 7), (30., 20))
             if n < 9000 or t == 60]
    return [
        Space('large', large, run_large, 'up to a day of seconds'),
        Space('series', ser, run_series, 'all series up to length 5 (6) over '
              'three value alphabets, all increments'),
        Space('vi', vi, run_vi, 'all series up to length 4 (5)'),
        Space('average', av, run_average, 'sampling periods x averaging x '
              'starts x missing rows'),
        Space('table', tab, run_table, 'tables of 1-4 columns'),
    ]
