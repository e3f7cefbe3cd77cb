"""C16: the rolling daily quantile against a reference by definition."""
import datetime
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C16'
ASSUME = ['the first and the last day of the series have at least one row',
          'the series starts at the beginning of a day',
          'quantiles interpolate linearly between order statistics']

TIMES = {'mid': ['00:00:00', '12:00:00'],
         'three': ['00:00:00', '06:30:00', '23:59:59'],
         'frac': ['00:00:00.250', '12:00:00.500'],
         'one': ['00:00:00'], 'noon': ['12:00:00'],
         'four': ['00:00:00', '00:00:01', '12:00:00', '23:59:00']}


def quantile(vals, q):
    v = sorted(vals)
    if not v:
        return math.nan
    p = q * (len(v) - 1)
    i = min(int(math.floor(p)), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return v[i] + (p - i) * (v[j] - v[i])


def reference(cells, days, times, n, q):
    """cells: {(day, time index): value}, absent rows left out."""
    out = {}
    for (d, t) in cells:
        if d < n:
            out[d, t] = math.nan
            continue
        h = [cells[k, t] for k in range(d - n, d) if (k, t) in cells]
        out[d, t] = quantile([x for x in h if x == x], q)
    return out


def build(cells, times, tz, form, unit=None, start='2020-02-27'):
    d0 = pd.Timestamp(start)
    keys = sorted(cells)
    ix = pd.DatetimeIndex([d0 + pd.Timedelta(days=d) +
                           pd.to_timedelta(times[t]) for d, t in keys])
    if unit:
        ix = ix.as_unit(unit)
    if tz:
        ix = ix.tz_localize(tz)
    v = [cells[k] for k in keys]
    if form == 'frame':
        return keys, pd.DataFrame({'p': v}, index=ix), 'p_quant'
    if form == 'frame int':
        return keys, pd.DataFrame({'p': np.array(v).astype(int)}, index=ix), \
            'p_quant'
    if form == 'nameless':
        return keys, pd.Series(v, index=ix), None
    return keys, pd.Series(v, index=ix, name='power'), 'power_quant'


STARTS = ['2020-02-27', '2020-12-29', '2019-12-30', '2021-02-26', '1999-12-28',
          '1969-12-30']


def check(rec, cells, case, q, n_days, n, form='series', what=''):
    from solarspatialtools.stats import calc_quantile
    times = TIMES[case['times']]
    keys, ts, name = build(cells, times, case['tz'], form, case.get('unit'),
                           case.get('start', STARTS[0]))
    snap = gen.snapshot(ts)
    rec.step()
    out = calc_quantile(ts, n_days=n_days, quantile=q)
    rec.same(gen.snapshot(ts), snap, 'the argument')
    rec.true(isinstance(out, pd.DataFrame), 'a table')
    rec.true(out.index.equals(ts.index), f'index {what}')
    rec.same(str(out.index.tz), str(ts.index.tz), 'time zone')
    rec.same(out.shape[1], 1, 'one column')
    if name:
        rec.same(list(out.columns), [name], 'column name')
    want = reference(cells, case['days'], times, n, q)
    got = out.iloc[:, 0].values.astype(float)
    rec.close(got, [want[k] for k in keys], f'{n_days} q {q} {what}',
              rtol=1e-9)
    rec.outcome([None if x != x else round(float(x), 6) for x in got])
    return keys, got


def values(case):
    D, T = case['days'], len(TIMES[case['times']])
    h = np.round(gen.hash01(D * T, case['salt']) * 900) + 1
    return {(d, t): float(h[d * T + t]) for d in range(D) for t in range(T)}


def run_grid(case, rec):
    cells = values(case)
    for n, nd in case['windows']:
        for q in case['quantiles']:
            check(rec, cells, case, q, nd, n, case['form'], str(cells))


def run_holes(case, rec):
    """Every placement of up to `holes` missing rows or missing values."""
    full = values(case)
    keys = sorted(full)
    n, nd = case['window']
    for r in range(case['holes'] + 1):
        for ks in itertools.combinations(keys, r):
            for kinds in itertools.product(('row', 'nan'), repeat=r):
                cells = dict(full)
                for k, kind in zip(ks, kinds):
                    if kind == 'row':
                        del cells[k]
                    else:
                        cells[k] = math.nan
                left = {d for d, t in cells}
                if not {0, case['days'] - 1} <= left:
                    continue      # the series begins later or ends earlier
                check(rec, cells, case, case['q'], nd, n, 'series',
                      f'{ks} {kinds}')


def run_future(case, rec):
    """Changing the current or a later day changes nothing before."""
    base = values(case)
    n, nd = case['window']
    for form in ('series', 'nameless'):
        k0, g0 = check(rec, base, case, .7, nd, n, form)
        for d in range(case['days']):
            for sub in itertools.product((0, 1), repeat=len(
                    TIMES[case['times']])):
                ch = dict(base)
                for t, s in enumerate(sub):
                    if s:
                        ch[d, t] += 1000 + 50 * t
                k1, g1 = check(rec, ch, case, .7, nd, n, form)
                for k, a, b in zip(k0, g0, g1):
                    if k[0] <= d:
                        rec.close(b, a, f'{k} after a change on day {d}')


CLOCK = [('Europe/Berlin', '2020-03-29'), ('Europe/Berlin', '2020-10-25'),
         ('America/New_York', '2020-03-08'), ('America/New_York', '2020-11-01'),
         ('Australia/Lord_Howe', '2021-04-04'), ('Asia/Beirut', '2021-03-28')]


def run_clock(case, rec):
    """Series across a change of the clock, around any of their days."""
    from solarspatialtools.stats import calc_quantile
    tz, change = case['clock']
    day = pd.Timestamp(change)
    for before in range(0, 5):
        a = (day - pd.Timedelta(days=before)).strftime('%Y-%m-%d')
        b = (day + pd.Timedelta(days=case['after'])).strftime('%Y-%m-%d')
        try:
            ix = pd.date_range(a, b, freq=case['freq'], tz=tz,
                               inclusive='left')
        except Exception:
            continue        # the series would begin at a time that is skipped
        ix = ix[ix.hour < case['until']]
        v = np.round(gen.hash01(len(ix), 3) * 900) + 1
        s = pd.Series(v, index=ix, name='power')
        wall = [(d, t) for d, t in zip(ix.date, ix.time)]
        by = {}
        for k, x in zip(wall, v):
            by.setdefault(k, []).append(float(x))
        for n in (1, 2, 3):
            for q in (0., .4, 1.):
                rec.step()
                out = calc_quantile(s, n_days=f'{n}d', quantile=q)
                rec.true(out.index.equals(ix), 'index')
                want = []
                for d, t in wall:
                    if (d - wall[0][0]).days < n:
                        want.append(math.nan)
                        continue
                    h = []
                    for k in range(1, n + 1):
                        h += by.get((d - datetime.timedelta(days=k), t), [])
                    want.append(quantile(h, q))
                rec.close(out.iloc[:, 0].values.astype(float), want,
                          f'{tz} {a} to {b} by {case["freq"]}, {n} days, q {q}')
                rec.outcome([x for x in want if x == x][-5:])


def run_large(case, rec):
    """Months of hourly or denser values, the default window."""
    from solarspatialtools.stats import calc_quantile
    D, per = case['days'], case['per']
    ix = pd.date_range(case['start'], periods=D * per,
                       freq=pd.Timedelta(days=1) / per, tz=case['tz'])
    v = np.round(gen.hash01(D * per, case['salt']) * 900) + 1
    v[5::97] = np.nan
    s = pd.Series(v, index=ix, name='power')
    n = case['window']
    for q in (.1, .9):
        rec.step()
        kw = {} if n is None else dict(n_days=f'{n}d')
        out = calc_quantile(s, quantile=q, **kw)
        rec.true(out.index.equals(ix), f'index {case}')
        m = n or 30
        V = v.reshape(D, per)
        want = np.full((D, per), np.nan)
        for d in range(m, D):
            for t in range(per):
                want[d, t] = quantile([x for x in V[d - m:d, t] if x == x], q)
        rec.close(out.iloc[:, 0].values.astype(float), want.ravel(),
                  f'{case} q {q}', rtol=1e-9)
        rec.outcome((D, per, n, q))


def spaces(tier):
    deep = tier == 'thorough'
    W = [(1, '1d'), (2, '2d'), (2, '2 days'), (3, '3D'), (4, '4d')]
    grid = [dict(days=D, times=t, tz=tz, unit=u, salt=s, form=f, windows=W,
                 quantiles=[0.0, 0.1, 0.5, 0.9, 1.0])
            for D in ((1, 2, 3, 5, 6) if deep else (1, 3, 5))
            for t in TIMES
            for tz, u in ((None, None), ('UTC', 'us'), ('Etc/GMT+5', None),
                          ('Asia/Kolkata', 'ms'))
            for s in ((0, 1) if deep else (0,))
            for f in ('series', 'frame', 'nameless', 'frame int')
            if deep or f == 'series' or (t in ('mid', 'frac') and D == 5)]
    grid += [dict(days=D, times=t, tz=tz, unit=None, salt=2, form='series',
                  windows=W, quantiles=[0., .6], start=st)
             for D in (4, 6) for t in ('mid', 'noon') for st in STARTS[1:]
             for tz in (None, 'UTC', 'Pacific/Apia')]
    holes = [dict(days=D, times=t, tz=None, salt=s, window=list(w), holes=h, q=q)
             for D, t, h in (((4, 'mid', 3), (5, 'three', 2), (4, 'three', 2),
                              (6, 'one', 1)) if deep else
                             ((4, 'mid', 3), (4, 'three', 2), (5, 'mid', 2),
                              (6, 'one', 3)))
             for s in ((0, 1, 2) if deep else (0, 1))
             for w in ((2, '2d'), (3, '3d')) for q in (0.9, 0.3)]
    fut = [dict(days=D, times=t, tz=tz, salt=1, window=list(w))
           for D in ((4, 5, 6) if deep else (4, 5)) for t in ('mid', 'three')
           for tz in (None, 'UTC') for w in ((1, '1d'), (2, '2d'))]
    large = [dict(days=D, per=p, window=w, tz=tz, start=st, salt=3)
             for D, p, w, tz, st in (
                 (200, 24, 30, 'UTC', '2019-11-02'), (40, 24, None, None,
                                                      '2020-02-10'),
                 (12, 1440, 4, 'Etc/GMT+5', '2020-06-01'),
                 (420, 2, 365, None, '2019-12-15'),
                 (70, 24, 60, 'UTC', '2021-01-15'))]
    return [
        Space('large', large, run_large, 'months of values, windows of up to '
              'a year'),
        Space('grid', grid, run_grid, 'days x times of day x windows x quantiles'),
        Space('holes', holes, run_holes, 'all placements of missing rows and '
              'values', chunk=1),
        Space('clock', [dict(clock=c, after=k, freq=f, until=u)
                        for c in CLOCK for k in ((1, 2, 3, 4, 5) if deep
                                                 else (1, 3))
                        for f, u in (('30min', 5), ('1h', 24))
                        + ((('10min', 4),) if deep else ())],
              run_clock, 'changes of the clock x first days x last days'),
        Space('future', fut, run_future, 'all single-day changes'),
    ]
