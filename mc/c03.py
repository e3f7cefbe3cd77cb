"""C03: prediction of a misplaced sensor from two cloud motions."""
import itertools
import math
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen
from mc.c08 import field_signal

PROP = 'C03'
ASSUME = [
    'smooth broadband patterns and delays of a few sampling periods; the '
    'prediction may be off by the estimation error of the delays, taken as '
    '0.4 sampling periods per direction (amplified by the angle between the '
    'motions)',
    'how many sensors of those with the best coherence are averaged is left to the '
    'implementation within one; their coherences are distinct where the order '
    'of the sensors is varied',
    'computed cloud motion vectors: the other sensors are where they are '
    'recorded, at least eight of them',
]

# irregular and regular layouts, in units of 10 m
LAYOUTS = {
    'irregular': [(0, 0), (3, 1), (1, 4), (5, 5), (6, 0), (2, 7), (7, 3),
                  (4, 2), (0, 6), (8, 8)],
    'grid': [(i * 3, j * 3) for i in range(3) for j in range(3)],
    'line': [(i * 2, i) for i in range(7)],
    'mirror': [(0, 0), (3, -1), (-1, 4), (5, -5), (-6, 0), (-2, -7), (7, 3),
               (4, -2), (-3, 6)],
    'field': [(i * 1.7 + (i * j * 5 % 7) / 7, j * 1.9 + (i * 3 + j) % 4 / 4)
              for i in range(6) for j in range(5)],
}


def vec(spd, deg):
    return [spd * math.cos(math.radians(deg)),
            spd * math.sin(math.radians(deg))]


def build(case, salt=0):
    """True positions, and per motion the signals by name."""
    scale = case.get('scale', 1.)
    xy = 10. * scale * np.array(LAYOUTS[case['layout']], float)
    names = gen.labels(case['labels'], len(xy))
    a = math.radians(case.get('rot', 0))
    R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    dfs, vecs = [], []
    for m in (0, 1):
        v = np.array(vec(case['spd'][m], case['dir'][m]))
        if case.get('intvec'):
            v = np.round(v)
        v = scale * (R @ v)
        dt, n = case['dt'][m], case['n'][m]
        t = np.arange(n, dtype=float)
        rxy = xy @ R.T
        d = rxy @ (v / np.dot(v, v)) / dt    # arrival in samples
        d = d - d.mean()
        cols = {nm: field_signal(t - d[i], 3 * m + salt)
                for i, nm in enumerate(names)}
        df = pd.DataFrame(cols, index=gen.tindex(n, dt, case.get('tz')))
        dfs.append(df)
        vecs.append(v)
    return xy @ R.T, names, dfs, vecs


def positions(names, xy, ref, disp, order=None, extra=None):
    xy = np.array(xy, float)
    xy[names.index(ref)] += disp
    p = pd.DataFrame({'E': xy[:, 0], 'N': xy[:, 1]}, index=names)
    if extra == 'zone':
        p['zone'] = '18N'
    elif extra == 'num':
        p.insert(0, 'tilt', np.arange(len(names)) * 1000.)
        p['z'] = 5
    elif extra == 'swap':
        p = p[['N', 'E']]
    if order is not None:
        p = p.iloc[order]
    return p


def orders(n):
    r = list(range(n))
    return [r, r[::-1], r[1::2] + r[::2][::-1]]


def tolerance(case, vecs):
    a, b = vecs
    c = abs(a[0] * b[1] - a[1] * b[0]) / (np.hypot(*a) * np.hypot(*b))
    return sum(0.4 * case['dt'][m] * np.hypot(*vecs[m]) for m in (0, 1)) / c


def tables(rec, case, data, pos, ref, dfs, vecs, mode, nd, kw, what, got):
    """Every row belongs to its sensor, and the result follows from them."""
    from solarspatialtools import signalproc
    rec.true(len(data) == 2, 'two tables ' + what)
    names = list(pos.index)
    rp = pos.loc[ref, ['E', 'N']].astype(float).values
    means, rows = [], []
    for m in (0, 1):
        T = data[m]
        v = np.asarray(vecs[m], float)
        s = np.hypot(*v)
        dl, ex = signalproc.compute_delays_tf(
            dfs[m][ref], dfs[m][names], navgs=kw.get('navgs', 5),
            coh_limit=kw.get('coh_limit', 0.6),
            freq_limit=kw.get('freq_limit', 0.02),
            method=kw.get('delay_method', 'multi'))
        dl = pd.Series(np.asarray(dl), index=names)
        co = pd.Series(np.asarray(ex['mean_coh']), index=names)
        sel = list(T.index)
        rec.true(len(set(sel)) == len(sel) and set(sel) <= set(names),
                 f'sensors {sel} of the table {what}')
        P = pos.loc[sel, ['E', 'N']].astype(float).values
        plan = (rp - P) @ v / s
        rec.close(T['plan_dist'], plan, 'planned distance ' + what,
                  rtol=1e-8, atol=1e-6)
        rec.close(T['delay'], dl[sel], 'delays ' + what, rtol=1e-7, atol=1e-7)
        rec.close(T['coh'], co[sel], 'coherence ' + what, rtol=1e-7)
        rec.close(T['delay_dist'], -dl[sel] * s, 'delay distance ' + what,
                  rtol=1e-7, atol=1e-5)
        rec.close(T['error_dist'], -dl[sel] * s - plan, 'error ' + what,
                  rtol=1e-7, atol=1e-5)
        means.append(np.mean(T['error_dist']))
        rows.append(v / s)
        others = [x for x in sel if x != ref]
        rest = [x for x in names if x not in sel and x != ref]
        k = min(nd, len(names))
        if mode == 'all':
            rec.true(set(sel) == set(names), f'all sensors {sel} {what}')
        elif mode == 'distance':
            rec.true(len(others) == k - 1 and ref in sel,
                     f'{sel} of {nd} {what}')
        else:
            rec.true(len(others) in (k - 1, k) and ref not in sel,
                     f'{sel} of {nd} {what}')
        if mode == 'distance':
            dist = np.hypot(*(pos.loc[:, ['E', 'N']].astype(float) - rp).values.T)
            dist = pd.Series(dist, index=names)
            rec.true(not others or not rest or
                     dist[others].max() <= dist[rest].min() + 1e-9,
                     f'closest sensors {sel} {what}')
        if mode == 'coherence':
            rec.true(not others or not rest or
                     co[others].min() >= co[rest].max() - 1e-9,
                     f'sensors with the best coherence {sel} {what}')
        if mode == 'global_coherence':
            rec.extra['global'] += 1
    want = np.linalg.solve(np.array(rows), means) + rp
    rec.close(got, want, 'position from the tables ' + what, rtol=1e-7,
              atol=1e-4)


def global_best(rec, data, pos, ref, dfs, kw, what):
    from solarspatialtools import signalproc
    names = list(pos.index)
    g = 0
    for m in (0, 1):
        _, ex = signalproc.compute_delays_tf(dfs[m][ref], dfs[m][names], **kw)
        g = g + pd.Series(np.asarray(ex['mean_coh']), index=names) ** 2
    sel = list(data[0].index)
    rec.true(set(sel) == set(data[1].index), 'one choice for both ' + what)
    others = [x for x in sel if x != ref]
    rest = [x for x in names if x not in sel and x != ref]
    rec.true(not others or not rest or g[others].min() >= g[rest].max() - 1e-9,
             f'sensors with the best global coherence {sel} {what}')


MODES = ['coherence', 'global_coherence', 'distance', 'all']


def run(case, rec):
    from solarspatialtools import field
    xy, names, dfs, vecs = build(case)
    n = len(names)
    tol = tolerance(case, vecs)
    for ri in case['refs']:
        ref = names[ri % n]
        truth = xy[ri % n]
        base = {}
        for disp, mode, method in itertools.product(
                case['disp'], MODES, case['methods']):
            for nd in case['ndownsel'] if mode != 'all' else (8,):
                pos = positions(names, xy, ref, disp)
                kw = dict(delay_method=method)
                what = f'{mode} {method} n={nd} ref {ref} moved {disp} {case}'
                rec.step()
                got, data = field.compute_predicted_position(
                    dfs, pos, ref, np.array(vecs), mode=mode, ndownsel=nd,
                    **kw)
                rec.true(np.shape(got) == (2,), f'shape {np.shape(got)}')
                # where the reference is one of the sensors, it has no error
                share = 1.
                if mode in ('distance', 'all'):
                    share = 1 - 1 / min(nd if mode == 'distance' else n, n)
                want = truth - (1 - share) * -np.array(disp, float)
                err = np.hypot(*(np.asarray(got, float) - want))
                rec.true(err <= tol, lambda: f'predicted {got} but measured '
                         f'at {truth}, error {err} > {tol} {what}')
                rec.extra['err%'] = max(rec.extra['err%'],
                                        int(100 * err / tol))
                k = (mode, method, nd)
                if 'coherence' in mode:
                    if k in base:
                        rec.close(got, base[k], 'recorded position does not '
                                  'matter ' + what, rtol=0, atol=1e-5)
                    base[k] = np.asarray(got, float)
                rec.outcome((k, str(ref), tuple(disp), case['dir']))
                if tuple(disp) == tuple(case['disp'][-1]):
                    tables(rec, case, data, pos, ref, dfs, vecs, mode, nd, kw,
                           what, got)
                    opt = dict(kw, **case.get('opt') or {})
                    if opt != kw:
                        rec.step()
                        g2, d2 = field.compute_predicted_position(
                            dfs, pos, ref, np.array(vecs), mode=mode,
                            ndownsel=nd, **opt)
                        tables(rec, case, d2, pos, ref, dfs, vecs, mode, nd,
                               opt, f'{opt} {what}', g2)
                    if mode == 'global_coherence':
                        global_best(rec, data, pos, ref, dfs,
                                    dict(method=method), what)


def run_invariance(case, rec):
    from solarspatialtools import field
    xy, names, dfs, vecs = build(case)
    n = len(names)
    ref = names[case['refs'][0] % n]
    disp = case['disp'][0]
    kw = dict(mode=case['mode'], delay_method=case['methods'][0], ndownsel=5)
    rec.step()
    want, wdata = field.compute_predicted_position(
        dfs, positions(names, xy, ref, disp), ref, np.array(vecs), **kw)
    extra = ['zone', 'num', 'swap', None]
    for (i, po), (j, co), (k, co2) in itertools.product(
            *[list(enumerate(orders(n)))] * 3):
        for ex in extra:
            if ex and (i + j + k) % 3:
                continue
            P = positions(names, xy, ref, disp, po, ex)
            D = [dfs[0].iloc[:, co], dfs[1].iloc[:, co2]]
            if k == 1:
                D = [d.assign(other=1 + np.arange(len(d)) % 7) for d in D]
            cv = [np.array(vecs), [list(v) for v in vecs],
                  tuple(tuple(v) for v in vecs)][k]
            rec.step()
            got, data = field.compute_predicted_position(
                D if j else tuple(D), P, ref, cv, **kw)
            what = f'orders {i} {j} {k} extra {ex} {case}'
            rec.close(np.asarray(got, float), want, 'position ' + what,
                      rtol=0, atol=1e-4)
            for m in (0, 1):
                rec.true(set(data[m].index) == set(wdata[m].index),
                         'sensors ' + what)
                w = wdata[m].loc[data[m].index]
                for c in w.columns:
                    rec.close(data[m][c], w[c], f'{c} {what}', rtol=1e-6,
                              atol=1e-4)
            rec.outcome((i, j, k, ex))
    # names
    for kind in ('str', 'int', 'cmb', 'nest'):
        new = dict(zip(names, gen.labels(kind, n)))
        P = positions(names, xy, ref, disp).rename(index=new)
        D = [d.rename(columns=new) for d in dfs]
        rec.step()
        got, data = field.compute_predicted_position(D, P, new[ref],
                                                     np.array(vecs), **kw)
        rec.close(np.asarray(got, float), want, f'names {kind} {case}',
                  rtol=0, atol=1e-5)
        for m in (0, 1):
            rec.true(set(data[m].index) == {new[x] for x in wdata[m].index},
                     f'sensors, names {kind}')
    # translations
    for t in ((1000., -400.), (5e5, 4.5e6), (-37.5, 0.)):
        P = positions(names, xy + np.array(t), ref, disp)
        rec.step()
        got, _ = field.compute_predicted_position(dfs, P, ref,
                                                  np.array(vecs), **kw)
        rec.close(np.asarray(got, float) - t, want, f'translation {t} {case}',
                  rtol=0, atol=1e-4)
    # rotations
    for deg in (90, 180, 270, 30, -77):
        a = math.radians(deg)
        R = np.array([[math.cos(a), -math.sin(a)],
                      [math.sin(a), math.cos(a)]])
        P = positions(names, xy @ R.T, ref, R @ np.array(disp, float))
        V = [R @ v for v in vecs]
        rec.step()
        got, _ = field.compute_predicted_position(dfs, P, ref, np.array(V),
                                                  **kw)
        rec.close(np.asarray(got, float), R @ want, f'rotation {deg} {case}',
                  rtol=0, atol=1e-4)
    # exchanging the two motions
    rec.step()
    got, _ = field.compute_predicted_position(
        dfs[::-1], positions(names, xy, ref, disp), ref,
        np.array(vecs[::-1]), **kw)
    rec.close(np.asarray(got, float), want, f'exchanged {case}', rtol=0,
              atol=1e-5)


def run_computed(case, rec):
    """Cloud motion vectors computed by the function."""
    from solarspatialtools import field, cmv
    xy, names, dfs, vecs = build(case)
    n = len(names)
    ref = names[case['refs'][0] % n]
    truth = xy[case['refs'][0] % n]
    for disp, mode, method in itertools.product(case['disp'], MODES,
                                                case['methods']):
        P = positions(names, xy, ref, disp, extra=case.get('extra'))
        own = []
        for d in dfs:
            s, a, _ = cmv.compute_cmv(d, P[['E', 'N']], method='jamaly')
            own.append([s * math.cos(a), s * math.sin(a)])
        what = f'{mode} {method} moved {disp} {case}'
        rec.step(4)
        got, data = field.compute_predicted_position(
            dfs, P, ref, mode=mode, delay_method=method)
        want, _ = field.compute_predicted_position(
            dfs, P, ref, np.array(own), mode=mode, delay_method=method)
        rec.close(np.asarray(got, float), np.asarray(want, float),
                  'computed motion vectors ' + what, rtol=0, atol=1e-4)
        if np.hypot(*disp) == 0:
            err = np.hypot(*(np.asarray(got, float) - truth))
            tol = tolerance(case, vecs)
            rec.true(err <= tol, lambda: f'predicted {got}, measured at '
                     f'{truth}, {err} > {tol}, {what}')
            rec.extra['err%'] = max(rec.extra['err%'], int(100 * err / tol))
        rec.outcome((mode, method, tuple(disp)))


def run_zero(case, rec):
    """No error along one of the motions, exactly."""
    from solarspatialtools import field
    xy, names, dfs, vecs = build(case)
    # the motion is along an axis, the reference has a twin: zero delay
    ref, twin = names[0], names[1]
    for m in (0, 1):
        dfs[m][twin] = dfs[m][ref]
    for off in ((30., 0.), (0., 30.), (0., 0.), (-20., 0.), (0., -20.)):
        p = positions(names, xy, ref, (0, 0))
        p.loc[ref, ['E', 'N']] = [100., 50.]
        p.loc[twin, ['E', 'N']] = [100. + off[0], 50. + off[1]]
        for nd, mode in itertools.product((1, 2), ('distance',)):
            rec.step()
            with np.errstate(all='ignore'):
                got, data = field.compute_predicted_position(
                    dfs, p, ref, np.array(vecs), mode=mode, ndownsel=nd,
                    delay_method=case['methods'][0])
            want = np.array([100., 50.]) + np.array(off) * (nd - 1) / 2
            near = set(data[0].index)
            if nd == 2 and twin not in near:
                continue
            rec.close(np.asarray(got, float), want,
                      f'{nd} sensors at {off} {case}', rtol=0, atol=1e-6)


def run_dead(case, rec):
    """Sensors without a signal in one data set or in both."""
    from solarspatialtools import field
    xy, names, dfs, vecs = build(case)
    n = len(names)
    U = np.array([np.asarray(v, float) / np.hypot(*v) for v in vecs])
    tol = tolerance(case, vecs)
    ri = case['refs'][0]
    ref, truth = names[ri], xy[ri]
    for disp, mode, method, nd in itertools.product(
            case['disp'], MODES, case['methods'], case['ndownsel']):
        P = positions(names, xy, ref, disp)
        rp = P.loc[ref].values.astype(float)
        near = np.argsort(np.hypot(*(P.values - rp).T), kind='stable')[:nd]
        for dead, where, kind in itertools.product(
                case['dead'], ((0,), (1,), (0, 1)), ('nan',)):
            D = [d.copy() for d in dfs]
            for m in where:
                for i in dead:
                    D[m][names[i]] = np.nan
            rec.step()
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got, data = field.compute_predicted_position(
                    D, P, ref, np.array(vecs), mode=mode, ndownsel=nd,
                    delay_method=method)
            e = U @ (truth - rp)
            for m in (0, 1):
                gone = set(dead) if m in where else set()
                if mode == 'all':
                    e[m] *= 1 - 1 / (n - len(gone))
                elif mode == 'distance':
                    e[m] *= 1 - 1 / len(set(near.tolist()) - gone)
            want = rp + np.linalg.solve(U, e)
            err = np.hypot(*(np.asarray(got, float) - want))
            rec.true(err <= tol, lambda: f'{dead} {kind} in {where}: predicted '
                     f'{got}, not {want}, {mode} {method} n={nd} moved {disp} '
                     f'{case}')
            rec.outcome((mode, method, nd, tuple(dead), where, kind))


PAIRS = [(0, 90), (90, 0), (45, 135), (200, 300), (10, 80), (350, 95),
         (180, 270), (135, 20), (225, 330), (60, 120), (-30, 45), (0, 135)]


def spaces(tier):
    deep = tier == 'thorough'
    disp = [[0, 0], [40, 0], [0, -30], [-60, 25]]
    if deep:
        disp += [[13, 57], [-8, -90], [100, 100], [250, -130]]
    common = dict(n=[1500, 1500], dt=[1, 1], spd=[10, 10], labels='str',
                  disp=disp, refs=[3], methods=['multi', 'fit'],
                  ndownsel=[8])
    grid = [dict(common, layout=l, dir=list(p), spd=s, labels=lb,
                 refs=r)
            for l in LAYOUTS if l != 'field' for i, p in enumerate(PAIRS)
            for s, lb, r in (([10, 10], 'str', [0, 3]), ([6, 15], 'cmb', [5]))
            if deep or (s[0] == 6) == i % 2]
    other = [dict(common, layout='irregular', dir=list(p), n=n, dt=dt, tz=tz,
                  spd=s, ndownsel=nd, labels='int', refs=[1], opt=opt)
             for p in PAIRS[:2 if not deep else None]
             for n, dt, tz, s in (([1500, 1200], [1, 1], None, [8, 8]),
                                  ([1501, 1800], [1, 2], 'UTC', [10, 6]),
                                  ([2400, 1500], [.5, 1], 'US/Eastern',
                                   [12, 12]))
             for nd, opt in (([3], None), ([5, 9], dict(
                 navgs=8, coh_limit=.3, freq_limit=.011)),
                 ([2, 20], dict(navgs=3, coh_limit=.9, freq_limit=.03)))
             if deep or nd[0] > 2 or s[0] == 8]
    other += [dict(common, layout=l, dir=list(p), labels='nest', refs=[r],
                   scale=sc, disp=[[0, 0], [3 * sc, -21 * sc]],
                   ndownsel=[3, 6], methods=[me])
              for l, p, r, me in (('irregular', [10, 80], 3, 'multi'),
                                  ('mirror', [200, 300], 4, 'fit'),
                                  ('grid', [-30, 45], 4, 'multi'))
              for sc in ((.003, .03, 50.) if deep else (.003, 50.))]
    other += [dict(common, layout='field', dir=list(p), n=[3600, 2400],
                   labels=lb, refs=[17], disp=[[0, 0], [70, -45]],
                   ndownsel=[8, 25], methods=[me])
              for p, lb, me in (([10, 80], 'int', 'multi'),
                                ([200, 300], 'cmb', 'fit'))]
    inv = [dict(common, layout=l, dir=list(p), mode=m, methods=[me],
                disp=[[-27, 41]], refs=[2], labels='cmb')
           for l in ('irregular', 'mirror')
           for p in ((10, 80), (200, 300), (350, 95),
                     (-100, 130))[0 if deep or l[0] == 'i' else 2:]
           for m in MODES for me in ('multi', 'fit')
           if deep or (p[0] > 100) == (me == 'fit')]
    comp = [dict(common, layout=l, dir=list(p), disp=[[0, 0], [20, -15]],
                 refs=[r], extra=x, spd=[8, 10])
            for l in ('irregular', 'mirror')
            for p in PAIRS[0 if deep or l[0] == 'i' else 1::1 if deep else 2]
            for r, x in ((4, None), (7, 'zone'), (2, 'num'), (5, 'swap'))
            if deep or (x in ('num', 'swap')) == (p[0] % 20 == 10) or
            l[0] == 'm']
    zero = [dict(common, layout='irregular', dir=list(p), methods=[me])
            for p in ((0, 90), (90, 0), (180, 90), (0, 270), (45, 135),
                      (30, 100)) for me in ('multi', 'fit')]
    dead = [dict(common, layout=l, dir=list(p), refs=[r], dead=[[1], [6, 2]],
                 disp=[[-20, 35]], methods=[me], ndownsel=[4, 8, 20])
            for l, p, r in (('irregular', (10, 80), 3), ('mirror', (200, 300), 0),
                            ('grid', (-30, 45), 4))
            for me in ('multi', 'fit')]
    return [
        Space('truth', grid, run, 'layouts x direction pairs x displacements '
              'x modes x delay methods'),
        Space('sampling', other, run, 'lengths, rates, zones, speeds, '
              'numbers of sensors'),
        Space('invariance', inv, run_invariance, 'orders of rows and columns, '
              'names, columns, translations, rotations'),
        Space('computed', comp, run_computed, 'motion vectors not given'),
        Space('dead', dead, run_dead, 'sensors without signal in the first, '
              'the second or both data sets x modes x methods'),
        Space('zero', zero, run_zero, 'exactly zero errors'),
    ]
