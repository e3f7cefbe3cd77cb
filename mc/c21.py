"""C21: quality control of campaign data, all small tables."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C21'
ASSUME = ['regular time bases for the interpolation', 'data columns are '
          'floating point, flags have the labels of the data']

NAN = math.nan


def index(kind, n):
    return {'utc': gen.tindex(n, 1.0, 'UTC'), 'naive': gen.tindex(n, 60.),
            'range': pd.RangeIndex(n), 'tz': gen.tindex(n, .1, 'Etc/GMT+5')}[
                kind]


def fill(v, limit):
    """Runs of missing values, filled when short and inside."""
    out = list(v)
    i = 0
    while i < len(v):
        if v[i] == v[i]:
            i += 1
            continue
        j = i
        while j < len(v) and v[j] != v[j]:
            j += 1
        if i > 0 and j < len(v) and j - i <= limit:
            a, b = v[i - 1], v[j]
            for k in range(i, j):
                out[k] = a + (b - a) * (k - i + 1) / (j - i + 1)
        i = j
    return out


def run_gaps(case, rec):
    """Every pattern of missing samples of length n, every limit."""
    from solarspatialtools.dataio.hope_campaign import interp_nan
    n = case['n']
    ix = index(case['index'], n)
    base = [10. * i + 3. * (i * i % 5) for i in range(n)]
    pats = list(itertools.product((False, True), repeat=n))
    lo, hi = case['part']
    k = len(pats) // hi
    pats = pats[lo * k:(lo + 1) * k]
    cols = gen.labels(case['labels'], 3)
    for pi, p in enumerate(pats):
        q = pats[(pi * 5 + 1) % len(pats)]
        data = {cols[0]: [NAN if m else x for m, x in zip(p, base)],
                cols[1]: [NAN if m else -x for m, x in zip(q, base)],
                cols[2]: list(base)}
        df = pd.DataFrame(data, index=ix)
        snap = gen.snapshot(df)
        for limit in [None] + list(range(0, n + 1)):
            rec.step()
            out = interp_nan(df) if limit is None else interp_nan(df, limit)
            rec.frame(out, ix, cols, 'table')
            for c in cols:
                rec.close(out[c].values, fill(data[c], 5 if limit is None
                                              else limit),
                          f'{data[c]} limit {limit}', rtol=1e-12)
        rec.outcome(p)
        rec.same(gen.snapshot(df), snap, 'the argument')


def run_single(case, rec):
    """One column, longer series, two gaps of all lengths and places."""
    from solarspatialtools.dataio.hope_campaign import interp_nan
    n = case['n']
    ix = index('utc', n)
    base = [100. + 7. * ((i * i) % 11) for i in range(n)]
    a = case['a']
    for la in range(1, n - a + 1):
        for b in range(a + la + 1, n + 1):
            for lb in range(1, n - b + 1):
                v = [NAN if a <= i < a + la or b <= i < b + lb else x
                     for i, x in enumerate(base)]
                df = pd.DataFrame({'x': v}, index=ix)
                for limit in (None, 1, 3):
                    rec.step()
                    out = interp_nan(df) if limit is None else \
                        interp_nan(df, limit=limit)
                    rec.close(out['x'].values, fill(v, 5 if limit is None
                                                    else limit),
                              f'gaps {a}+{la}, {b}+{lb}, limit {limit}',
                              rtol=1e-12)
                rec.outcome((a, la, b, lb))


def run_flags(case, rec):
    """All flag tables, all levels."""
    from solarspatialtools.dataio.hope_campaign import flag_qc
    r, c = case['shape']
    ix = index(case['index'], r)
    cols = gen.labels(case['labels'], c)
    vals = [[5. + 10 * i + j for j in range(c)] for i in range(r)]
    if case['gap']:
        vals[0][0] = NAN
    df = pd.DataFrame(vals, index=ix, columns=cols)
    snap = gen.snapshot(df)
    for f in itertools.product(case.get('flags', (1, 2, 3, 4)),
                               repeat=r * c):
        F = [list(f[i * c:(i + 1) * c]) for i in range(r)]
        flag = pd.DataFrame(F, index=ix, columns=cols, dtype=case['dtype'])
        if case['order'] == 'columns':
            flag = flag[cols[::-1]]
        fs = gen.snapshot(flag)
        for level in (None, 1, 2, 3, 4, 5) + tuple(case.get('levels', ())):
            rec.step()
            out = flag_qc(df, flag) if level is None else flag_qc(df, flag,
                                                                  level)
            lv = 2 if level is None else level
            want = [[NAN if F[i][j] >= lv else vals[i][j] for j in range(c)]
                    for i in range(r)]
            rec.frame(out, ix, cols, 'table')
            rec.close(out.values, want, f'flags {F} level {level}')
        rec.same(gen.snapshot(flag), fs, 'the flags')
        rec.outcome(f)
    rec.same(gen.snapshot(df), snap, 'the data')


def run_null(case, rec):
    from solarspatialtools.dataio.hope_campaign import null_qc
    n = case['n']
    ix = index(case['index'], n)
    vals = [-999., -100., -100.001, -99.9, -3., 0., 850., NAN, -1e6, -101.]
    for v in itertools.product(vals, repeat=n):
        w = list(v[::-1])
        df = pd.DataFrame({'b': list(v), 7: w}, index=ix, dtype=case['dtype'])
        lim = np.float32 if case['dtype'] == 'float32' else float
        snap = gen.snapshot(df)
        rec.step()
        out = null_qc(df)
        rec.frame(out, ix, ['b', 7], 'table')
        for c, x in (('b', list(v)), (7, w)):
            rec.close(out[c].values, [NAN if lim(q) < -100 else lim(q)
                                      for q in x], f'values {x}', rtol=1e-6)
        rec.same(gen.snapshot(df), snap, 'the argument')
        rec.outcome(v)


def run_large(case, rec):
    """Days of samples, tens of stations, long gaps and limits."""
    from solarspatialtools.dataio import hope_campaign as h
    n, m = case['n'], case['m']
    ix = index('utc', n)
    cols = gen.labels('int', m)
    data = {}
    for k, c in enumerate(cols):
        v = np.round(gen.hash01(n, 3 * k) * 900, 1)
        cut = gen.hash01(40, 3 * k + 1)
        for j, w in zip((cut * n).astype(int), range(1, 121, 3)):
            v[j:j + w] = -999. if k % 2 else NAN
        data[c] = v
    df = pd.DataFrame(data, index=ix)
    F = pd.DataFrame({c: 1 + (gen.hash01(n, 3 * k + 2) * 4).astype(int)
                      for k, c in enumerate(cols)}, index=ix)
    rec.step(2)
    nul = h.null_qc(df)
    want = df.where(df != -999.)
    rec.close(nul.values, want.values, f'null_qc {case}', rtol=0)
    for lv in (2, 4):
        out = h.flag_qc(nul, F, lv)
        rec.close(out.values, want.where(F < lv).values, f'flag_qc {case}',
                  rtol=0)
    for limit in (0, 1, 5, 29, 60, 400):
        rec.step()
        out = h.interp_nan(nul, limit)
        rec.frame(out, ix, cols, f'{case}')
        rec.close(out.values, np.array([fill(list(want[c].values), limit)
                                        for c in cols]).T,
                  f'interp_nan {limit} {case}', rtol=1e-10)
        rec.outcome((n, limit))


def run_chain(case, rec):
    """null_qc, flag_qc and interp_nan in every order used together."""
    from solarspatialtools.dataio import hope_campaign as h
    n = 6
    ix = index('utc', n)
    for v in itertools.product((-999., 50., 400.), repeat=n):
        df = pd.DataFrame({1: v, 2: v[::-1]}, index=ix)
        rec.step(2)
        out = h.interp_nan(h.null_qc(df), case['limit'])
        for c, x in ((1, v), (2, v[::-1])):
            rec.close(out[c].values, fill([NAN if q < -100 else q for q in x],
                                          case['limit']), f'{x}', rtol=1e-12)
        rec.outcome(v)


def spaces(tier):
    deep = tier == 'thorough'
    gaps = [dict(n=n, index=ix, labels=l, part=[i, k])
            for n, k in ((1, 1), (2, 1), (3, 1), (5, 1), (7, 8)) + (
                ((8, 16), (9, 32)) if deep else ((8, 16),))
            for i in range(k)
            for ix, l in (('utc', 'int'), ('range', 'str'), ('naive', 'int'))
            if n < 8 or (ix == 'utc' and (deep or i % 2 == 0))]
    flags = [dict(shape=s, index=ix, labels=l, gap=g, dtype=d, order=o)
             for s in ([1, 1], [1, 3], [2, 2], [3, 1]) for ix in ('utc', 'range')
             for l in ('int', 'str') for g in (False, True)
             for d in ('int64', 'int8', 'float64')
             for o in ('same', 'columns')
             if deep or s != [2, 2] or d != 'int64']
    # flags and levels beside the four documented ones
    flags += [dict(shape=sh, index='utc', labels='int', gap=False, dtype=d,
                   order='columns', flags=fl, levels=lv)
              for sh in ([1, 1], [1, 2], [3, 1])
              for d, fl, lv in (
                  ('int64', (0, 2, 5, 127, -1), (0, 6, -1, 2.5)),
                  ('int8', (0, 3, 100, 127, -128), (50, 127)),
                  ('float64', (NAN, 1.5, 2., 2.5, 1e9), (1.5, 2.25, 0)))]
    return [
        Space('gaps', gaps, run_gaps, 'all missing-value patterns of length '
              '<= 7 (9) x all limits, three columns'),
        Space('single', [dict(n=n, a=a) for n in ((14, 18) if deep else (14,))
                         for a in range(n)], run_single,
              'all pairs of gaps in a longer series'),
        Space('flags', flags, run_flags, 'all flag tables up to 2x2 / 1x3 x '
              'all levels'),
        Space('null', [dict(n=n, index=ix, dtype=d)
                       for n in ((1, 2, 3) if deep else (1, 2))
                       for ix in ('utc', 'range')
                       for d in ('float64', 'float32')],
              run_null, 'all value tuples'),
        Space('large', [dict(n=n, m=m) for n, m in ((700, 99), (5000, 12),
                                                    (86400, 2))],
              run_large, 'up to a day of seconds, 99 stations'),
        Space('chain', [dict(limit=k) for k in (0, 1, 2, 5)], run_chain,
              'all series of length 6 over three values'),
    ]
