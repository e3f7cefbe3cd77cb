"""C17: the clear-sky index for every container."""
import itertools
import math
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C17'
ASSUME = ['for labelled inputs, both have the same labels in the same order',
          'irradiance or clear-sky values that are themselves missing or '
          'infinite give a missing index']

VALS = [0., 1., 250., 500., 1000., 2600., -3., math.nan, math.inf]


def ref(g, c, m):
    if not (math.isfinite(g) and math.isfinite(c)):
        return math.nan
    r = g / c if c else math.nan
    if not math.isfinite(r) or r < 0:
        return 0.0
    return min(r, m)


def call(fn, *a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return fn(*a)


def run_scalar(case, rec):
    from solarspatialtools.irradiance import clearsky_index
    mk = {'float': float, 'np': np.float64, '0d': np.array}[case['form']]
    for g in VALS:
        for c in VALS:
            m = case['max']
            rec.step()
            got = call(clearsky_index, mk(g), mk(c)) if m is None else \
                call(clearsky_index, mk(g), mk(c), m)
            rec.close(got, ref(g, c, 2.0 if m is None else m), f'{g} / {c}',
                      rtol=1e-12)
            rec.outcome(repr(float(got)))
            if case['form'] == 'float' and math.isfinite(g + c):
                rec.step()
                got = call(clearsky_index, int(g), int(c), 2.0 if m is None
                           else m)
                rec.close(got, ref(int(g), int(c), 2.0 if m is None else m),
                          f'ints {g} / {c}', rtol=1e-12)


def containers(kind, G, c, ix):
    """-> (ghi, clearsky) with columns G and clear sky c."""
    if kind.startswith('frame'):
        g = pd.DataFrame({k: col for k, col in G}, index=ix)
        if kind == 'frame dup':
            g.columns = ['a'] * len(G)
    elif kind.startswith('series'):
        g = pd.Series(G[0][1], index=ix, name='g')
    elif kind.startswith('2d'):
        g = np.array([col for _, col in G]).T
    else:
        g = np.array(G[0][1])
    if kind.endswith('-series'):
        cc = pd.Series(c, index=ix)
    elif kind.endswith('-scalar'):
        cc = c[0]
    elif kind.endswith('-column'):
        cc = np.array(c)[:, None]
    else:
        cc = np.array(c)
    return g, cc


def run_many(case, rec):
    """All values against each other, row by row, in every container."""
    from solarspatialtools.irradiance import clearsky_index
    grid = list(itertools.product(VALS, VALS))
    rows = case['rows']
    kind = case['kind']
    m = case['max']
    mm = 2.0 if m is None else m
    for shift in range(0, len(grid), 1):
        part = [grid[(shift + 7 * i) % len(grid)] for i in range(rows)]
        c = [p[1] for p in part]
        if kind.endswith('-scalar'):
            c = [c[0]] * rows
        cols = [('b', [p[0] for p in part]),
                (3, [VALS[(shift + i) % 9] for i in range(rows)]),
                ('a', [600.] * rows)]
        if kind.split('-')[0] in ('series', 'array'):
            cols = cols[:1]
        ix = gen.tindex(rows, 60, case['tz']) if case['tz'] != 'labels' else \
            gen.labels('str', rows)
        g, cc = containers(kind, cols, c, ix)
        snap = gen.snapshot([g, cc])
        rec.step()
        got = call(clearsky_index, g, cc) if m is None else \
            call(clearsky_index, g, cc, m)
        want = np.array([[ref(col[i], c[i], mm) for _, col in cols]
                         for i in range(rows)])
        if kind.startswith('frame'):
            rec.frame(got, ix, list(g.columns), 'table')
        elif kind.startswith('series'):
            rec.true(isinstance(got, pd.Series), 'series in, series out')
            rec.same(list(got.index), list(g.index), 'index')
            want = want[:, 0]
        elif kind.startswith('array'):
            want = want[:, 0]
        rec.close(np.asarray(got), want, f'{kind} {part} max {m}', rtol=1e-12)
        rec.same(gen.snapshot([g, cc]), snap, 'the arguments')
        rec.outcome([repr(v) for v in np.ravel(want)])


def run_large(case, rec):
    """Thousands of rows, tens of columns."""
    from solarspatialtools.irradiance import clearsky_index
    n, m, kind, mx = case['rows'], case['cols'], case['kind'], case['max']
    if kind.split('-')[0] in ('series', 'array'):
        m = 1
    c = np.round(gen.hash01(n, 1) * 900, 1)
    c[::11] = 0
    c[3::17] = -2.5
    c[7::29] = math.nan
    if kind.endswith('-scalar'):
        c[:] = 612.5
    G = [(k, np.round(gen.hash01(n, 2 + k) * 1900 - 60)) for k in range(m)]
    for k, v in G:
        v[k::31] = math.nan
    g, cc = containers(kind, G, c, gen.tindex(n, 60, 'UTC'))
    rec.step()
    got = call(clearsky_index, g, cc) if mx is None else \
        call(clearsky_index, g, cc, mx)
    want = np.array([[ref(float(a), float(b), mx or 2.) for a, b in zip(v, c)]
                     for _, v in G]).T
    if m == 1 and kind.split('-')[0] in ('series', 'array'):
        want = want[:, 0]
    rec.close(np.asarray(got), want, f'{case}', rtol=1e-12)
    rec.outcome((kind, mx))


def spaces(tier):
    deep = tier == 'thorough'
    mx = (None, 2.0, 1.0, 1.5, 0.25, 100., 2)
    kinds = ['array-array', 'array-scalar', '2d-column', '2d-scalar',
             'series-series', 'series-scalar', 'series-array', 'frame-series',
             'frame-scalar', 'frame-array', 'frame dup-series']
    large = [dict(kind=k, rows=r, cols=c, max=m) for k in kinds
             for r, c in ((150, 60), (5000, 5)) for m in (None, 1.2)]
    return [
        Space('large', large, run_large, 'thousands of rows, 60 columns'),
        Space('scalar', [dict(form=f, max=m) for f in ('float', 'np', '0d')
                         for m in mx], run_scalar, 'all pairs of values'),
        Space('many', [dict(kind=k, rows=r, max=m, tz=t)
                       for k in kinds for r in ((1, 2, 4, 5) if deep else (1, 4))
                       for m in mx
                       for t in ((None, 'UTC', 'labels') if deep else
                                 ('UTC', 'labels'))],
              run_many, 'containers x maxima x all placements of value pairs'),
    ]
