"""C04: frozen patterns drifting over sensor layouts, all slownesses."""
import collections
import itertools
import math
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen
from mc.c06 import reference
from mc.c08 import field_signal

PROP = 'C04'
ASSUME = [
    'usable pairs: not all in one direction and, for the Gagne method, '
    'at least twelve of them',
    'drifts whose arrival times are whole sampling periods are recovered to '
    '1e-5; with the transfer function backend (smooth patterns) to 12 % and '
    '0.12 rad',
]

LAYOUTS = {
    'grid': [(i, j) for i in range(3) for j in range(3)],
    'irr': [(0, 0), (3, 1), (1, 4), (4, 4), (2, 2), (0, 3), (5, 0)],
    'neg': [(0, 0), (-2, 1), (1, -3), (3, 3), (-1, -1), (2, 0)],
    'tri': [(0, 0), (2, 0), (0, 2)],
    'ell': [(0, 0), (1, 0), (2, 0), (0, 1)],
    'field': [(2 * i + i * j * 5 % 3 - 4, 2 * j + (i * 3 + j) % 4 - 5)
              for i in range(6) for j in range(5)],
}
SMALL = [k for k in LAYOUTS if k != 'field']
# position = M (i, j)
MAPS = {
    'unit': [[20., 0.], [0., 20.]],
    'rot': [[20 * math.cos(.5), -20 * math.sin(.5)],
            [20 * math.sin(.5), 20 * math.cos(.5)]],
    'shear': [[25., 8.], [-6., 17.]],
    'flip': [[0., 18.], [22., 0.]],
    'ints': [[30, -10], [10, 20]],
}


def rough(n, salt):
    """A reproducible broadband pattern between 0 and 1."""
    b = gen.hash01(n + 8, salt)
    b = np.convolve(b, np.ones(5) / 5, 'valid')[:n]
    return (b - b.min()) / np.ptp(b)


def build(case, p, q):
    lay = LAYOUTS[case['layout']]
    M = np.array(MAPS[case['map']])
    names = gen.labels(case['labels'], len(lay))
    arr = np.array([i * p + j * q for i, j in lay])
    for k, m in case.get('late', ()):
        arr[k % len(arr)] += m
    n, dt = case['n'], case['dt']
    if case['backend'] == 'xcorr':
        base = rough(n + 200, case['salt'] + 20)
        cols = [base[100 - a:100 - a + n] for a in arr]
    else:
        t = np.arange(n, dtype=float)
        cols = [field_signal(t - a, case['salt']) for a in arr]
    df = pd.DataFrame(dict(zip(names, cols)),
                      index=gen.tindex(n, dt, case['tz']))
    xy = np.array(lay) @ M.T * case.get('scale', 1)
    pos = pd.DataFrame(xy, index=names, columns=case.get('cols', ['E', 'N']))
    S = np.linalg.solve(M.T.astype(float) * case.get('scale', 1),
                        [p, q]) * dt          # s/m
    speed = 1 / np.hypot(*S)
    return df, pos, names, arr * dt, speed, math.atan2(S[1], S[0])


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def wanted_pairs(names, refs):
    out = []
    for a, b in itertools.combinations_with_replacement(names, 2):
        if refs is None or a in refs or b in refs:
            out.append(frozenset((a, b)))
    return out


def usable(names, arr, pos, refs, max_v, method):
    """Pairs with a lag and a bearable apparent velocity."""
    vs, ratio = [], set()
    ix = {n: k for k, n in enumerate(names)}
    for pr in wanted_pairs(names, refs):
        pr = sorted(pr, key=ix.get)
        if len(pr) < 2:
            continue
        a, b = ix[pr[0]], ix[pr[1]]
        lag = arr[b] - arr[a]
        if lag == 0:
            continue
        v = pos.iloc[b].values - pos.iloc[a].values
        if method == 'jamaly' and np.hypot(*v) / abs(lag) >= max_v - 1e-9:
            continue
        vs.append(v)
        ratio.add((round(v[0] / lag, 6), round(v[1] / lag, 6)))
    if not vs or np.linalg.matrix_rank(np.array(vs, float)) < 2:
        return 0
    if method == 'jamaly' and len(ratio) < 2:
        return 0
    return len(vs)


def ref_forms(names):
    a, b, c = names[0], names[-1], names[len(names) // 2]
    return [('none', None, None), ('one', a, [a]), ('last', b, [b]),
            ('list1', [c], [c]), ('list2', [b, a], [a, b]),
            ('tuple', (a, c), [a, c]), ('array', np.array([c, b]), [c, b]),
            ('index', pd.Index([a, b, c]), [a, b, c]),
            ('all', list(names), list(names))]


def check(rec, case, df, pos, names, arr, speed, ang, got, refs, what,
          details=True):
    s, a, o = got
    tf = case['backend'] == 'tf'
    rt, at = (0.12, 0.12) if tf else (1e-5, 1e-5)
    rec.true(np.ndim(s) == 0 and np.ndim(a) == 0 and s >= 0 and
             0 <= a <= 2 * math.pi, lambda: f'speed {s!r} angle {a!r} {what}')
    rec.true(abs(s - speed) <= rt * speed and angdiff(a, ang) <= at,
             lambda: f'speed {s} direction {a}, but the pattern drifts with '
             f'{speed} to {ang % (2 * math.pi)} {what}')
    rec.close([o.wind_speed, o.wind_angle], [s, a], 'speed and angle in the '
              'details ' + what)
    rec.true(o.flag.name != 'ALLBAD', f'flag {o.flag} {what}')
    if not details:
        return
    prs = [tuple(p) for p in np.asarray(o.allpairs)]
    n = len(prs)
    rec.true(collections.Counter(map(frozenset, prs)) ==
             collections.Counter(wanted_pairs(names, refs)), lambda: f'pairs {prs} {what}')
    at_ = {nm: k for k, nm in enumerate(names)}
    i = np.array([at_[x] for x, _ in prs])
    j = np.array([at_[y] for _, y in prs])
    lag = arr[j] - arr[i]
    rec.close(np.asarray(o.pair_lag, float), lag, 'lags of the pairs ' + what,
              rtol=0.15 if tf else 1e-9,
              atol=0.5 * case['dt'] if tf else 1e-9)
    V = pos.values[j] - pos.values[i]
    rec.close(np.asarray(o.pair_dists, float),
              V @ [math.cos(a), math.sin(a)],
              'distances along the motion ' + what, rtol=1e-8, atol=1e-6)
    flags = [f.name for f in o.pair_flag]
    good = ('GOOD', 'VELLIMIT' if case['method'] == 'jamaly' else 'LOWCORR')
    none = ('SAME', 'NOLAG', 'VELLIMIT', 'LOWCORR')
    odd = [(prs[k], f, lag[k]) for k, f in enumerate(flags)
           if f not in (none if i[k] == j[k] else
                        good + none if tf and lag[k] == 0 else
                        none[1:] if lag[k] == 0 else good)]
    rec.true(len(flags) == n and not odd,
             lambda: f'flags of {n} pairs {odd} {what}')
    cl = np.asarray(o.corr_lag, float)
    rec.true(cl.shape == (n,), f'correlations {cl.shape} {what}')
    if not tf:
        cr = np.asarray(o.corr_raw, float)
        N = len(df)
        for k in range(0, n, max(1, n // 7)):
            lags, c = reference(df[prs[k][0]].values, df[prs[k][1]].values,
                                'coeff', True)
            rec.close(cl[k], c.max(), f'peak correlation {prs[k]} {what}',
                      rtol=1e-8, atol=1e-9)
            rec.close(cr[k], c[N - 1], f'zero lag correlation {prs[k]} {what}',
                      rtol=1e-8, atol=1e-9)
    else:
        for k in range(n):
            if i[k] == j[k]:
                rec.close(cl[k], 1, f'correlation {prs[k]} {what}', rtol=1e-6)
        co = np.asarray(o.pair_coh, float)
        rec.true(co.shape == (n,) and np.all(co > 0.6) and
                 np.all(co < 1 + 1e-9), f'coherences {co} {what}')


def call(case, df, pos, ref):
    from solarspatialtools import cmv
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return cmv.compute_cmv(df, pos, reference_id=ref,
                               method=case['method'],
                               delay_backend=case['backend'])


def run(case, rec):
    for q in case['qs']:
        p = case['p']
        if p == q == 0:
            continue
        df, pos, names, arr, speed, ang = build(case, p, q)
        for kind, ref, refs in ref_forms(names):
            if case['refs'] == 'none' and ref is not None:
                break
            u = usable(names, arr, pos, refs, 70, case['method'])
            if u < (12 if case['method'] == 'gagne' else 2):
                continue
            what = f'slowness {p},{q} refs {kind} {case}'
            rec.step()
            got = call(case, df, pos, ref)
            check(rec, case, df, pos, names, arr, speed, ang, got, refs, what,
                  details=case['refs'] != 'none' or q % 2 == 0)
            rec.outcome((p, q, kind, got[2].flag.name, len(got[2].allpairs)))


def run_late(case, rec):
    """Sensors that see the pattern early or late (they are not where the
    layout says): the details belong to the pairs all the same."""
    n = len(LAYOUTS[case['layout']])
    lates = [[(k, m)] for k in range(n) for m in (-23, -7, -4, 3, 6, 20)]
    lates += [[(k, 9), (k + 2, m)] for k in range(n) for m in (-9, 9, -30)]
    for late in lates:
        c = dict(case, late=late)
        df, pos, names, arr, speed, ang = build(c, *case['pq'])
        for kind, ref, refs in ref_forms(names)[:5:4]:
            what = f'{late} refs {kind} {case}'
            rec.step()
            s, a, o = call(c, df, pos, ref)
            rec.outcome((tuple(late), kind, o.flag.name))
            if o.flag.name == 'ALLBAD':
                continue
            rec.true(s >= 0 and 0 <= a <= 2 * math.pi, f'{s} {a} {what}')
            prs = [tuple(p) for p in np.asarray(o.allpairs)]
            rec.true(collections.Counter(map(frozenset, prs)) ==
                     collections.Counter(wanted_pairs(names, refs)),
                     lambda: f'pairs {prs} {what}')
            at = {nm: k for k, nm in enumerate(names)}
            i = np.array([at[x] for x, _ in prs])
            j = np.array([at[y] for _, y in prs])
            rec.close(np.asarray(o.pair_lag, float), arr[j] - arr[i],
                      'lags of the pairs ' + what)
            V = pos.values[j] - pos.values[i]
            rec.close(np.asarray(o.pair_dists, float),
                      V @ [math.cos(a), math.sin(a)],
                      'distances along the motion ' + what, rtol=1e-8,
                      atol=1e-6)
            for k in range(0, len(prs), 5):
                _, x = reference(df[prs[k][0]].values, df[prs[k][1]].values,
                                 'coeff', True)
                rec.close([o.corr_lag[k], o.corr_raw[k]],
                          [x.max(), x[len(df) - 1]],
                          f'correlations of {prs[k]} {what}', rtol=1e-8,
                          atol=1e-9)


def run_invariance(case, rec):
    p, q = case['pq']
    df, pos, names, arr, speed, ang = build(case, p, q)
    n = len(names)
    s0, a0, o0 = call(case, df, pos, None)
    rec.step()
    tol = 2e-4 if case['backend'] == 'tf' else 1e-6

    def same(got, what):
        rec.step()
        rec.close(got[0], s0, f'speed, {what} {case}', rtol=tol)
        rec.true(angdiff(got[1], a0) < tol, lambda: f'direction {got[1]} '
                 f'instead of {a0}, {what} {case}')
        rec.same(got[2].flag, o0.flag, f'flag, {what} {case}')

    r = list(range(n))
    orders = [r, r[::-1], r[1::2] + r[::2][::-1], r[2:] + r[:2]]
    for (i, x), (j, y) in itertools.product(enumerate(orders), repeat=2):
        same(call(case, df.iloc[:, x], pos.iloc[y], None),
             f'columns {i} rows {j}')
    for kind in ('str', 'int', 'cmb', 'nest'):
        new = dict(zip(names, gen.labels(kind, n)))
        got = call(case, df.rename(columns=new), pos.rename(index=new), None)
        same(got, 'names ' + kind)
        got = call(case, df.rename(columns=new), pos.rename(index=new),
                   list(new.values()))
        same(got, 'names, all as references ' + kind)
    for t in ((1000, -300), (5e5, 4.5e6), (-12.5, 0)):
        same(call(case, df, pos + np.array(t), None), f'translation {t}')
    for c in (['x', 'y'], [0, 1], ['N', 'E']):
        same(call(case, df, pos.set_axis(c, axis=1), None), f'columns {c}')
    same(call(case, df.assign(unused=df.iloc[:, 0].values[::-1]), pos, None),
         'another column')
    if case['map'] == 'ints':
        same(call(case, df, pos.astype(int), None), 'integers')
    for st, tz in (('2019-12-31 23:59:00', None),
                   ('2021-03-28 00:55:00', 'Europe/Berlin'),
                   ('2020-06-01 12:00:00', 'US/Eastern')):
        ix = gen.tindex(len(df), case['dt'], 'UTC' if tz else None, st)
        if tz:
            ix = ix.tz_convert(tz)
        same(call(case, df.set_axis(ix), pos, None), f'time stamps {st} {tz}')
    if case['backend'] == 'xcorr':
        same(call(case, df * 0.7 + 0.2, pos, None), 'brightness')
        # other calling conventions
        from solarspatialtools import cmv
        same(cmv.compute_cmv(df, pos, None, case['method'].upper()),
             'upper case')
        same(cmv.compute_cmv(df, pos, method=case['method'], options={}),
             'no options')
    # reversed time: the opposite direction
    got = call(case, df.iloc[::-1].set_axis(df.index), pos, None)
    if case['backend'] == 'xcorr':
        rec.step()
        rec.close(got[0], s0, f'speed, backwards {case}', rtol=tol)
        rec.true(angdiff(got[1], a0 + math.pi) < tol, lambda: f'direction '
                 f'{got[1]} backwards, {a0} forwards {case}')
    # scale of the coordinates and of time
    for f in (.5, 2):
        g = call(case, df, pos * f, None)
        if np.all(g[2].pair_flag == o0.pair_flag):
            rec.step()
            rec.close(g[0], s0 * f, f'speed scales {f} {case}', rtol=tol)
            rec.true(angdiff(g[1], a0) < tol, f'direction, scale {f} {case}')


def run_wrong(case, rec):
    from solarspatialtools import cmv
    df, pos, names, arr, speed, ang = build(case, 1, 2)
    for kw in (dict(method='other'), dict(delay_backend='fft'),
               dict(method='gagne', options={'mincorr': .5}),
               dict(method='jamaly', options={'nosuch': 1})):
        rec.step()
        rec.raises(ValueError, lambda: cmv.compute_cmv(df, pos, **kw),
                   f'{kw}')


def spaces(tier):
    deep = tier == 'thorough'
    R = range(-3, 4) if not deep else range(-5, 6)
    big = ('grid', 'irr', 'neg')
    base = dict(n=600, dt=1, tz=None, labels='str', backend='xcorr', salt=0,
                refs='none')
    drift = [dict(base, layout=l, map=m, p=p, qs=list(R), method=me, salt=p)
             for l in SMALL for m in MAPS for p in R
             for me in ('jamaly', 'gagne')
             if me == 'jamaly' or l in big]
    refs = [dict(base, layout=l, map=m, p=p, qs=qs, method=me, refs='forms',
                 labels=lb, salt=p + 1)
            for l in SMALL
            for m in (('shear', 'flip') if deep else ('shear',))
            for p, qs in ((2, [1, -3]), (-1, [3, 0]), (-3, [-2]), (0, [-2, 1]))
            for lb in ('str', 'int', 'cmb', 'nest')
            for me in ('jamaly', 'gagne') if me == 'jamaly' or l in big]
    rates = [dict(base, layout=l, map='rot', p=p, qs=qs, method=me, refs=rf,
                  dt=dt, scale=sc, n=n, tz=tz, salt=3, cols=['lon', 'lat'])
             for l in ('irr', 'grid') for p, qs in ((1, [2, -1]), (-2, [1, -3]))
             for dt, sc in ((.1, .1), (.5, .5), (2, 1.5), (10, 10), (60, 40),
                            (1 / 3, .4))
             for n, tz in ((601, 'UTC'), (400, 'US/Eastern'))
             for me in ('jamaly', 'gagne') for rf in ('none',)]
    tf = [dict(base, layout=l, map=m, p=p, qs=list(R), method=me,
               backend='tf', n=1500, salt=1)
          for l in big for m in ('unit', 'shear') for p in R
          for me in ('jamaly', 'gagne') if deep or p in (-2, 0, 1)]
    tfr = [dict(base, layout='irr', map='flip', p=p, qs=[2, -1], method=me,
                backend='tf', n=1500, refs='forms', salt=2, labels=lb)
           for p in (-1, 2) for lb in ('str', 'int')
           for me in ('jamaly', 'gagne')]
    inv = [dict(base, layout=l, map=m, pq=pq, method=me, backend=b, n=n,
                salt=5)
           for l, m in (('irr', 'ints'), ('neg', 'shear'))
           for pq in ((2, -1), (-1, 3), (-2, -3))
           for me in ('jamaly', 'gagne')
           for b, n in (('xcorr', 500), ('tf', 1200))
           if deep or b == 'xcorr' or pq[0] == 2]
    large = [dict(base, layout='field', map=m, p=p, qs=qs, method=me,
                  refs='forms', labels=lb, n=n, dt=dt, salt=7)
             for m, p, qs, lb, n, dt in (('shear', 2, [-1], 'int', 2000, 1),
                                         ('rot', -1, [2], 'cmb', 7200, .5))
             for me in ('jamaly', 'gagne')]
    late = [dict(base, layout=l, map=m, pq=pq, method=me, salt=2, labels=lb,
                 n=n, dt=dt)
            for l, m, n, dt in (('grid', 'shear', 600, 1),
                                ('irr', 'flip', 401, 2), ('neg', 'rot', 500, .5))
            for pq in ((1, 2), (-2, 1), (2, -3))
            for me in ('jamaly', 'gagne')
            for lb in (('str', 'int') if deep else ('str',))]
    return [
        Space('drift', drift, run, 'layouts x linear maps x all slownesses '
              '-3..3 (thorough -5..5)'),
        Space('references', refs, run, 'forms of the reference x labels'),
        Space('large', large, run, 'thirty sensors'),
        Space('misplaced', late, run_late, 'every sensor early or late, '
              'pairs of them'),
        Space('rates', rates, run, 'sampling periods, lengths, zones'),
        Space('transfer', tf, run, 'delays by transfer function'),
        Space('transfer references', tfr, run, 'references, transfer function'),
        Space('invariance', inv, run_invariance, 'orders, names, translations,'
              ' time stamps, columns'),
        Space('arguments', [dict(base, layout='irr', map='unit')], run_wrong,
              'invalid arguments'),
    ]
