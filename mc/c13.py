"""C13: space-time distances against explicit loops."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C13'
ASSUME = ['at least one site and one time stamp']

GAPS = {'1s': [0, 1, 2, 3], 'irregular': [0, 0.5, 3, 60], '100ms':
        [0, .1, .2, .3], 'backwards': [0, 5, 2, -3], 'min': [0, 60, 120, 3600],
        'repeat': [0, 4, 4, 9],
        'hour': [0, 1800, 3600, 90000], 'micro': [0, .000004, .000913, .70035]}


CLOCK = {'Europe/Berlin': ('2020-03-29 00:59:58', '2020-10-25 00:29:58'),
         'America/New_York': ('2020-03-08 06:59:58', '2020-11-01 05:29:58'),
         'Australia/Lord_Howe': ('2021-04-03 14:59:58',
                                 '2020-10-03 15:29:58')}


def times(kind, n, tz, unit, start=None):
    if start is not None:       # around a change of the clock
        ix = times(kind, n, None, unit)
        t0 = pd.Timestamp(CLOCK[tz][start])
        return (ix + (t0 - ix[0])).tz_localize('UTC').tz_convert(tz)
    t0 = pd.Timestamp('2020-06-01 23:59:58')
    ix = pd.DatetimeIndex([t0 + pd.to_timedelta(int(round(s * 1e9)), unit='ns')
                           for s in GAPS[kind][:n]])
    if unit:
        ix = ix.as_unit(unit)
    return ix.tz_localize(tz) if tz else ix


def reference(pts, secs, cs, cd):
    moved = [(x - cs * s * math.cos(cd), y - cs * s * math.sin(cd))
             for x, y in pts for s in secs]
    return np.array([[math.hypot(a[0] - b[0], a[1] - b[1]) for b in moved]
                     for a in moved])


FORMS = {'list': list, 'array': np.array,
         'series': lambda v: pd.Series(v, index=gen.labels('str', len(v))),
         'int series': lambda v: pd.Series(v, index=gen.labels('int', len(v)))}


def run(case, rec):
    from solarspatialtools.spatial import spacetime_distances
    n, m = case['sites'], case['times']
    menu = [(0., 0.), (10., 0.), (-3., 4.), (0., -25.)]
    t = times(case['gaps'], m, case['tz'], case['unit'], case.get('start'))
    secs = GAPS[case['gaps']][:m]
    mk = FORMS[case['form']]
    for pts in itertools.product(menu, repeat=n):
        for cs in (0, 2, 7.5, -1.) if case['gaps'] != 'micro' else (
                0, 2e3, -750.):
            for cd in (0.0, 2.0, -math.pi / 2, 5.5):
                x, y = mk([p[0] for p in pts]), mk([p[1] for p in pts])
                snap = gen.snapshot([x, y, t])
                rec.step()
                D = spacetime_distances(x, y, t, cs, cd)
                rec.same(gen.snapshot([x, y, t]), snap, 'the arguments')
                D = np.asarray(D)
                W = reference(pts, secs, cs, cd)
                what = f'{pts} at {secs} s, {cs} m/s to {cd}'
                rec.close(D, W, what, rtol=1e-9, atol=1e-9)
                rec.close(D, D.T, 'symmetry, ' + what, atol=1e-9)
                rec.close(np.diag(D), np.zeros(n * m), 'diagonal, ' + what,
                          atol=1e-9)
                rec.true(np.all(D >= 0), 'non-negative')
                rec.step()
                E = spacetime_distances(
                    mk([p[0] + 512. for p in pts]),
                    mk([p[1] - 64. for p in pts]),
                    t + pd.Timedelta('91min'), cs, cd)
                rec.close(E, D, 'translation in space and time, ' + what,
                          rtol=1e-7, atol=1e-7)
                rec.outcome([round(float(v), 4) for v in D[0]])


def run_large(case, rec):
    """Tens of sites and times."""
    from solarspatialtools.spatial import spacetime_distances
    n, m, cs, cd = case['sites'], case['times'], 9., 2.2
    x = np.round(gen.hash01(n, 1) * 3000 - 900, 2)
    y = np.round(gen.hash01(n, 2) * 2000 + 100, 2)
    secs = np.cumsum(np.round(gen.hash01(m, 3) * 40, 1) + .1)
    t = pd.Timestamp('2020-06-01 23:50') + pd.to_timedelta(
        np.round(secs * 1e9).astype(int), unit='ns')
    rec.step()
    D = np.asarray(spacetime_distances(x, y, t, cs, cd))
    X = (x[:, None] - cs * secs * math.cos(cd)).ravel()
    Y = (y[:, None] - cs * secs * math.sin(cd)).ravel()
    rec.close(D, np.hypot(X[:, None] - X, Y[:, None] - Y), f'{case}',
              rtol=1e-7, atol=1e-6)
    rec.outcome((n, m))


def run_arrival(case, rec):
    """A cloud passes site after site: zero distance at its arrival."""
    from solarspatialtools.spatial import spacetime_distances
    cs, cd = case['cs'], case['cd']
    steps = case['steps']
    x = [cs * s * math.cos(cd) for s in steps]
    y = [cs * s * math.sin(cd) for s in steps]
    nt = max(steps) - min(steps) + 3
    t = gen.tindex(nt, 1.0, case['tz'])
    rec.step()
    D = np.asarray(spacetime_distances(np.array(x), np.array(y), t, cs, cd))
    for i, a in enumerate(steps):
        for j, b in enumerate(steps):
            for k in range(nt):
                for l in range(nt):
                    d = D[i * nt + k, j * nt + l]
                    w = cs * abs((a - k) - (b - l))
                    rec.close(d, w, f'site {i} at {k}, site {j} at {l}',
                              rtol=1e-9, atol=1e-9 * cs)
                    rec.outcome(round(w, 6))


def spaces(tier):
    deep = tier == 'thorough'
    loops = [dict(sites=n, times=m, gaps=g, tz=tz, unit=u, form=f)
             for n, m in (((1, 1), (1, 4), (2, 2), (3, 2), (2, 4), (3, 3))
                          if deep else ((1, 1), (1, 3), (2, 2), (3, 2), (2, 4)))
             for g in GAPS for f in FORMS
             for tz, u in ((None, None), ('UTC', 'ms'), ('Etc/GMT+5', 'us'))
             if not (g == 'repeat' and m > 3)
             and not (g == 'micro' and u == 'ms')]
    loops += [dict(sites=n, times=4, gaps=g, tz=tz, unit=u, form='array',
                   start=s)
              for n in (1, 2) for g in ('1s', 'irregular', 'backwards', 'min',
                                        'hour')
              for tz in CLOCK for s in (0, 1) for u in (None, 'us')]
    arr = [dict(cs=cs, cd=cd, steps=list(s), tz=tz)
           for cs in (1., 12.5) for cd in (0., 1., math.pi, 4.)
           for s in itertools.permutations(range(4), 3)
           for tz in (None, 'UTC')]
    return [
        Space('loops', loops, run, 'all site tuples of a point menu x speeds x '
              'directions x time bases x containers'),
        Space('large', [dict(sites=n, times=m) for n, m in
                        ((30, 40), (1, 1500), (600, 2), (9, 130))],
              run_large, 'up to 1500 points'),
        Space('arrival', arr, run_arrival, 'all arrival orders of three sites'),
    ]
