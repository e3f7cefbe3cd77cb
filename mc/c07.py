"""C07: averaged spectra and transfer functions against a Welch estimate
written out here, pair by pair, over a product space of configurations."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C07'
ASSUME = [
    'windows hamming, hann and boxcar in their periodic form; detrending '
    'linear, constant or none (None/False)',
    'segments of at least 4 samples; overlap below 1',
    'missing values with constant or no detrending only (linear detrending in '
    'scipy refuses them with an error)',
]


def window(name, n):
    k = np.arange(n)
    if name == 'hamming':
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if name == 'hann':
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    return np.ones(n)


def detrended(s, kind):
    if kind == 'constant':
        return s - s.mean()
    if kind == 'linear':
        k = np.arange(len(s))
        k = k - k.mean()
        return s - s.mean() - k * (np.dot(k, s) / np.dot(k, k))
    return s


def cross(x, y, dt, navgs, overlap, win, det, scaling='density'):
    """Averaged conj(X) Y, one-sided."""
    n = int(len(x) // navgs)
    step = n - int(n * overlap)
    w = window(win, n)
    acc, cnt, k = 0, 0, 0
    while k + n <= len(x):
        X = np.fft.rfft(detrended(x[k:k + n], det) * w)
        Y = np.fft.rfft(detrended(y[k:k + n], det) * w)
        acc = acc + np.conj(X) * Y
        cnt += 1
        k += step
    acc = acc / cnt
    if scaling == 'density':
        acc = acc * dt / np.sum(w * w)
    else:
        acc = acc / np.sum(w) ** 2
    if n % 2:
        acc[1:] *= 2
    else:
        acc[1:-1] *= 2
    f = np.arange(n // 2 + 1) / (n * dt)
    return f, acc


def sig(n, salt):
    s = gen.hash01(n, salt) - 0.3
    t = np.arange(n)
    s = np.convolve(s, [.25, .5, .25], 'same') + 0.3 * np.sin(t * (.2 + .05 * salt))
    return s * (1 + salt) + 0.01 * salt * t


def args(c, det=True):
    kw = dict(overlap=c['overlap'], window=c['window'])
    if det:
        kw['detrend'] = c['detrend']
    return kw


def run_psd(case, rec):
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case['tz'])
    m = case['cols']
    X = np.array([sig(n, 3 * i + case['salt']) for i in range(m)]).T
    if case['nan'] is not None and m > 1:
        X[:, case['nan']] = np.nan
    labels = gen.labels(case['labels'], m)
    df = pd.DataFrame(X, index=ix, columns=labels)
    kw = dict(args(case), scaling=case['scaling'])
    rec.step()
    got = sp.averaged_psd(df, case['navgs'], **kw)
    want = []
    for i in range(m):
        f, p = cross(X[:, i], X[:, i], dt, case['navgs'], case['overlap'],
                     case['window'], case['detrend'], case['scaling'])
        want.append(p.real)
    rec.frame(got, None, labels, 'psd')
    rec.close(got.index, f, 'psd frequencies')
    tol = 1e-9 * np.nanmax(np.abs(want))
    rec.close(got.values, np.array(want).T, 'psd', rtol=1e-7, atol=tol)
    rec.outcome(np.round(np.nan_to_num(got.values[:4]), 9).tolist())
    for i in range(m):
        rec.step()
        one = sp.averaged_psd(df[labels[i]], case['navgs'], **kw)
        rec.frame(one, None, [labels[i]], 'psd of a series')
        rec.close(one.index, f, 'psd frequencies of a series')
        rec.close(one.values[:, 0], want[i], 'psd of a series', rtol=1e-7,
                  atol=tol)


def run_tf(case, rec):
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case['tz'])
    ni, no = case['shape']
    X = np.array([sig(n, 2 * i + case['salt']) for i in range(ni)]).T
    Y = np.array([np.roll(sig(n, 2 * min(i, ni - 1) + case['salt']), i + 1)
                  * (1 + .2 * i) + .3 * sig(n, 20 + i) for i in range(no)]).T
    for side, col in case['nan']:
        (X if side == 'in' else Y)[:, col] = np.nan
    li = gen.labels(case['labels'], ni)
    lo = gen.labels(case['labels'], no)[::-1]
    A = pd.DataFrame(X, index=ix, columns=li)
    B = pd.DataFrame(Y, index=ix, columns=lo)
    m = max(ni, no)
    pair = [(min(i, ni - 1), min(i, no - 1)) for i in range(m)]
    a = A[li[0]] if case['series'] in ('in', 'both') and ni == 1 else A
    b = B[lo[0]] if case['series'] in ('out', 'both') and no == 1 else B
    rec.step()
    tf, coh = sp.averaged_tf(a, b, case['navgs'], **args(case))
    wt, wc = [], []
    cfg = (dt, case['navgs'], case['overlap'], case['window'], case['detrend'])
    for i, j in pair:
        f, xx = cross(X[:, i], X[:, i], *cfg)
        _, yy = cross(Y[:, j], Y[:, j], *cfg)
        _, xy = cross(X[:, i], Y[:, j], *cfg)
        ok = xx.real > 1e-12 * np.max(xx.real) if np.isfinite(xx[0]) else None
        if ok is not None:
            # detrending leaves only rounding noise at zero frequency
            xy = np.where(ok & (yy.real > 1e-12 * np.max(np.abs(yy))), xy, np.nan)
        wt.append(xy / xx.real)
        wc.append(np.abs(xy) ** 2 / (xx.real * yy.real))
    wt, wc = np.array(wt).T, np.array(wc).T
    cols = [f'{li[i]}_{lo[j]}' for i, j in pair]
    for got, want, what in ((tf, wt, 'tf'), (coh, wc, 'coherence')):
        rec.frame(got, None, cols, what)
        rec.close(got.index, f, what + ' frequencies')
        v = got.values.copy()
        for k in range(m):
            miss = any((s == 'in' and c == pair[k][0]) or
                       (s == 'out' and c == pair[k][1]) for s, c in case['nan'])
            if miss:
                rec.true(np.all(np.isnan(v[:, k])),
                         f'{what}: column {k} of a missing signal')
            else:
                w = want[:, k]
                known = ~np.isnan(w)
                rec.true(known.sum() >= len(w) - 2, 'harness: too few bins')
                rec.true(not np.any(np.isnan(v[known, k])),
                         f'{what}: column {k} is missing although its '
                         f'signals are not')
                rec.close(v[known, k], w[known], f'{what} column {k}',
                          rtol=1e-6, atol=1e-7)
    rec.outcome(np.round(np.nan_to_num(np.abs(tf.values[1:4])), 9).tolist())
    # every column is what the pair gives alone
    for k, (i, j) in enumerate(pair):
        rec.step()
        t1, c1 = sp.averaged_tf(A.iloc[:, [i]], B.iloc[:, [j]], case['navgs'],
                                **args(case))
        lo_ = 1 if case['detrend'] else 0
        rec.close(t1.values[lo_:, 0], tf.values[lo_:, k], f'tf of pair {k} alone',
                  rtol=1e-7, atol=1e-9)
        rec.close(c1.values[lo_:, 0], coh.values[lo_:, k],
                  f'coherence of pair {k} alone', rtol=1e-7, atol=1e-9)


def run_system(case, rec):
    """Outputs that are exact multiples of the input: gain and coherence."""
    from solarspatialtools import signalproc as sp
    n = case['n']
    ix = gen.tindex(n, case['dt'])
    x = sig(n, case['salt'])
    gains = [1.0, -1.0, 0.25, 7.0, 1e-3]
    A = pd.DataFrame({'x': x}, index=ix)
    B = pd.DataFrame({f'g{i}': g * x for i, g in enumerate(gains)}, index=ix)
    for inp, out, val in ((A, B, lambda g: g), (B, A, lambda g: 1 / g)):
        rec.step()
        tf, coh = sp.averaged_tf(inp, out, case['navgs'])
        for i, g in enumerate(gains):
            rec.close(tf.values[1:, i], np.full(len(tf) - 1, val(g), complex),
                      f'gain {g}', rtol=1e-6, atol=1e-9)
            rec.close(coh.values[1:, i], np.ones(len(tf) - 1), f'coherence {g}',
                      rtol=1e-6)


def run_refuse(case, rec):
    from solarspatialtools import signalproc as sp
    ni, no = case['shape']
    ix = gen.tindex(32)
    A = pd.DataFrame({i: sig(32, i) for i in range(ni)}, index=ix)
    B = pd.DataFrame({i: sig(32, i) for i in range(no)}, index=ix)
    rec.step(2)
    rec.raises(ValueError, lambda: sp.averaged_tf(A, B, 2), 'pairing')
    rec.raises(ValueError, lambda: sp.compute_delays_tf(A, B, 2), 'pairing')


def spaces(tier):
    deep = tier == 'thorough'
    ns = (24, 33, 50, 64, 101) if deep else (33, 64, 101)
    ovs = (0, 0.3, 0.5, 0.75)
    wins = ('hamming', 'hann', 'boxcar')
    dets = ('linear', 'constant', None, False)
    psd = [dict(n=n, navgs=na, overlap=o, window=w, detrend=d, scaling=s,
                cols=m, labels=lab, dt=dt, tz=tz, nan=nan, salt=salt)
           for n in ns for na in (1, 2, 3, 5) for o in ovs for w in wins
           for d in dets for s in ('density', 'spectrum')
           for m, lab, dt, tz, nan, salt in (
               (1, 'str', 1.0, None, None, 0), (3, 'int', 0.1, 'UTC', None, 1),
               (3, 'cmb', 60., 'Etc/GMT+5', 1, 2))
           if (deep or m == 3 or (o == 0.5 and w == 'hamming'))
           and not (nan is not None and d == 'linear')]
    shapes = [(1, 1), (2, 2), (3, 3), (1, 3), (3, 1)]
    tf = []
    for n in ns:
        for na in (1, 2, 3, 5):
            for o in ovs:
                for w in wins:
                    for d in dets:
                        for si, sh in enumerate(shapes):
                            if not deep and (si + na + int(o * 4) + n) % 3:
                                continue
                            tf.append(dict(n=n, navgs=na, overlap=o, window=w,
                                           detrend=d, shape=list(sh), nan=[],
                                           labels='str' if si % 2 else 'int',
                                           dt=(1.0, .5, 300.)[si % 3],
                                           tz=('UTC', None)[si % 2],
                                           series=('no', 'in', 'out', 'both')
                                           [(si + na) % 4], salt=si % 3))
    for k, (n, na, sh, dt) in enumerate(((300, 3, (40, 40), 1.),
                                         (401, 5, (1, 40), .5),
                                         (300, 2, (40, 1), 60.),
                                         (20000, 3, (2, 2), 1.),
                                         (86400, 6, (1, 2), 1.),
                                         (90001, 2, (1, 1), .5),
                                         (200000, 3, (1, 1), 1.),
                                         (4000, 60, (2, 2), .1))):
        o = (.5, .3)[k % 2]
        tf.append(dict(n=n, navgs=na, overlap=o, window='hamming', salt=1,
                       detrend='constant', shape=list(sh), nan=[], dt=dt,
                       labels='cmb', tz=None, series='both'))
        psd.append(dict(n=n, navgs=na, overlap=o, window='hann', salt=1,
                        detrend='constant', scaling='density', dt=dt,
                        cols=max(sh), labels='int', tz=None, nan=None))
    nans = [dict(n=n, navgs=na, overlap=.5, window='hamming', detrend=d,
                 shape=list(sh), nan=[list(x) for x in nan], labels='cmb',
                 dt=1.0, tz=None, series='both', salt=4)
            for n in (40, 61) for na in (2, 3) for d in dets[1:] for sh in shapes[1:]
            for r in (1, 2)
            for nan in itertools.combinations(
                [('in', i) for i in range(sh[0])] +
                [('out', i) for i in range(sh[1])], r)]
    system = [dict(n=n, navgs=na, salt=s, dt=dt) for n in (40, 63, 128)
              for na in (2, 3, 5) for s in (0, 1, 2) for dt in (1.0, 0.1)]
    refuse = [dict(shape=list(s)) for s in
              [(2, 3), (3, 2), (2, 4), (4, 3), (5, 2)]]
    return [
        Space('psd', psd, run_psd, 'full product of the configuration menu'),
        Space('tf', tf, run_tf, 'product of the configuration menu'
              + ('' if deep else ' (every third shape)')),
        Space('missing', nans, run_tf, 'all placements of 1-2 missing columns'),
        Space('system', system, run_system, 'exact gains'),
        Space('refuse', refuse, run_refuse, 'unequal column counts'),
    ]
