"""C06: cross correlation against the definition, for all small signals."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C06'
ASSUME = [
    'signals are finite; signals without variance are excluded where the '
    'normalisation divides by the variance',
    'where several lags share the maximum any of them is accepted',
    'a largest correlation below 1e-10 counts as uncorrelated (delay 0), as '
    'the code documents',
]


def lagged(x, y):
    """The definition: c[l] = sum_n x[n + l] y[n]."""
    n = len(x)
    lags = np.arange(-n + 1, n)
    out = []
    for l in lags:
        s = 0.0
        for k in range(n):
            if 0 <= k + l < n:
                s += x[k + l] * y[k]
        out.append(s)
    return lags, np.array(out)


def lagged_fast(x, y):
    n = len(x)
    lags = np.arange(-n + 1, n)
    return lags, np.array([np.dot(x[max(l, 0):n + min(l, 0)],
                                  y[max(-l, 0):n - max(l, 0)]) for l in lags])


def reference(x, y, scaling, fast=False):
    n = len(x)
    f = lagged_fast if fast else lagged
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if scaling.endswith('coeff'):
        lags, c = f(x - x.mean(), y - y.mean())
        c = c / (n * x.std() * y.std())
    else:
        lags, c = f(x, y)
        if scaling != 'none':
            c = c / np.sum(x * x)
    if scaling.startswith('unbiased'):
        c = c / ((n - np.abs(lags)) / n)
    return lags, c


CONT = {
    'arr': lambda v, ix: np.array(v),
    'list-series': lambda v, ix: pd.Series(list(v), index=ix),
    'series': lambda v, ix: pd.Series(np.array(v, float), index=ix, name='q'),
    'short': lambda v, ix: pd.Series(np.array(v).astype(np.int16), index=ix),
    'byte': lambda v, ix: pd.Series(np.array(v).astype(np.uint8), index=ix),
    'short arr': lambda v, ix: np.array(v).astype(np.int16),
}


def natural(x, y, scaling):
    """The size of the products of two signals, for rounding errors."""
    if scaling != 'none':
        return 1.0
    return float(np.linalg.norm(x) * np.linalg.norm(y)) or 1.0


def check_peak(rec, delay, corr, lags, c, dt, what, tol=1e-9, size=1.0):
    """delay belongs to a maximal lag and corr is the maximum."""
    k = -delay / dt
    l = int(round(k))
    rec.true(abs(k - l) < 1e-6 and lags[0] <= l <= lags[-1],
             lambda: f'delay {delay} is not a lag, {what}')
    at = c[l - lags[0]]
    scale = max(size, np.max(np.abs(c)))
    rec.true(abs(at - c.max()) <= tol * scale,
             lambda: f'delay {delay}: correlation {at} is below the maximum '
             f'{c.max()} (at {lags[c.argmax()] * dt}), {what}')
    if corr is not None:
        rec.close(corr, c.max(), f'peak, {what}', rtol=tol, atol=tol * scale)


def run_pairs(case, rec):
    """A fixed first signal against every other signal of the alphabet."""
    from solarspatialtools import signalproc as sp
    x = case['x']
    n = len(x)
    dt = case['dt']
    ix = gen.tindex(n, dt, case.get('tz'))
    make = CONT[case['cont']]
    for y in itertools.product(case['alphabet'], repeat=n):
        for sc in case['scalings']:
            if sc.endswith('coeff') and (len(set(x)) == 1 or len(set(y)) == 1):
                continue
            if 'energy' in sc and not any(x):
                continue
            lags, c = reference(x, y, sc)
            X, Y = make(x, ix), make(y, ix)
            what = f'{x} {y} {sc}'
            rec.step()
            gc, gl = sp.correlation(X, Y, sc) if sc != 'coeff' else \
                sp.correlation(X, Y)
            rec.true(np.array_equal(gl, lags), f'lags {gl}, {what}')
            rec.close(gc, c, f'correlation, {what}', rtol=1e-9,
                      atol=1e-9 * max(1, np.abs(c).max()))
            rec.outcome(np.round(c, 6).tolist())
            if 'arr' not in case['cont']:
                rec.step()
                d, p = sp.xcorr_delay(X, Y, sc)
                check_peak(rec, d, p, lags, c, dt, what)


def expected_batch(x, y, scaling, fast=False):
    lags, c = reference(x, y, scaling, fast)
    n = len(x)
    return lags, c, c.mean(), c[n - 1]


def run_batch(case, rec):
    """Batches: every pair must get the answer it gets alone."""
    from solarspatialtools import signalproc as sp
    dt = case['dt']
    xs = case['x']
    n = len(xs[0])
    alphabet = case['alphabet']
    ix = gen.tindex(n, dt, case.get('tz'))
    ys = [y for y in itertools.product(alphabet, repeat=n)
          if len(set(y)) > 1 or case['scaling'] == 'none']
    width = case['width']
    for k in range(0, len(ys), width):
        part = ys[k:k + width]
        cols = [xs[(k + i) % len(xs)] for i in range(len(part))]
        A = pd.DataFrame(np.array(cols).T, index=ix,
                         columns=[f'a{i}' for i in range(len(part))])
        B = pd.DataFrame(np.array(part).T, index=ix,
                         columns=[f'b{i}' for i in range(len(part))])
        if case['amp'] != 1:
            A, B = A * case['amp'], B * case['amp']
        elif case['int']:
            A, B = A.astype(int), B.astype(int)
            if case.get('short'):
                A, B = (A * 60).abs().astype(np.uint8), \
                    (B * 5000).astype(np.int16)
        for mode in ('loop', 'fft'):
            rec.step()
            d, ex = sp.compute_delays(A, B, mode, scaling=case['scaling'])
            compare_batch(rec, A, B, d, ex, case['scaling'], dt,
                          f'{mode} {case["scaling"]}')
            rec.outcome([float(v) for v in d])
        if width <= 16:
            rec.step()
            c, l = sp._fftcorrelate(A, B, case['scaling'])
            for i in range(len(part)):
                lags, want = reference(A.values[:, i], B.values[:, i],
                                       case['scaling'])
                rec.close(c[i], want, f'fft correlation of pair {i}',
                          rtol=1e-9, atol=1e-9 * max(1, np.abs(want).max()))
                rec.true(np.array_equal(l, lags), 'fft lags')


def compare_batch(rec, A, B, d, ex, scaling, dt, what, fast=False):
    m = A.shape[1]
    rec.same(np.shape(d), (m,), f'shape of the delays, {what}')
    for kk in ('peak_corr', 'mean_corr', 'zero_corr'):
        rec.same(np.shape(ex[kk]), (m,), f'shape of {kk}, {what}')
    for i in range(m):
        x, y = A.values[:, i], B.values[:, i]
        lags, c, mean, zero = expected_batch(x, y, scaling, fast)
        w = f'pair {i}: {x.tolist()[:8]} {y.tolist()[:8]}, {what}'
        s = max(natural(x, y, scaling), np.abs(c).max())
        rec.close(ex['peak_corr'][i], c.max(), 'peak_corr ' + w, atol=1e-9 * s)
        rec.close(ex['mean_corr'][i], mean, 'mean_corr ' + w, atol=1e-9 * s)
        rec.close(ex['zero_corr'][i], zero, 'zero_corr ' + w, atol=1e-9 * s)
        if c.max() < 1e-10 and s > 1e3 and d[i] != 0:
            # above 1e-10 by rounding
            check_peak(rec, d[i], None, lags, c, dt, w, size=s)
        elif c.max() < 1e-10:
            rec.same(float(d[i]), 0.0, 'uncorrelated delay ' + w)
        else:
            check_peak(rec, d[i], None, lags, c, dt, w,
                       size=natural(x, y, scaling))


def run_long(case, rec):
    """Longer signals of both parities, shifted by every delay in a window."""
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case.get('tz'))
    base = gen.hash01(n + 80, case['salt'])
    base = np.convolve(base, np.ones(case['smooth']) / case['smooth'], 'same')
    base = base * case['scale'] + case['offset']
    shifts = case['shifts']
    x = base[40:40 + n]
    ys = [base[40 - s:40 - s + n] for s in shifts]
    A = pd.DataFrame({i: x for i in range(len(shifts))}, index=ix)
    B = pd.DataFrame({i: y for i, y in enumerate(ys)}, index=ix)
    for mode in ('loop', 'fft'):
        rec.step()
        d, ex = sp.compute_delays(A, B, mode)
        compare_batch(rec, A, B, d, ex, 'coeff', dt, f'{mode} n={n}', True)
        rec.close(d, np.array(shifts) * dt, f'delays, {mode} {case}')
        rec.outcome([float(v) for v in d])
        rec.step()
        d, ex = sp.compute_delays(A, B, mode, 'none')
        compare_batch(rec, A, B, d, ex, 'none', dt, f'{mode} n={n} none',
                      True)
    for i, s in enumerate(shifts):
        for sc in ('coeff', 'none', 'energy'):
            if sc != 'coeff' and case['offset'] != 0:
                continue
            rec.step()
            dd, p = sp.xcorr_delay(A[i], B[i], sc)
            lags, c = reference(x, ys[i], sc, True)
            check_peak(rec, dd, p, lags, c, dt, f'{sc} {case} shift {s}')
    # swapping input and output reverses the delay
    rec.step()
    d2, _ = sp.compute_delays(B, A)
    rec.close(d2, -np.array(shifts) * dt, f'swapped delays {case}')


def run_illegal(case, rec):
    from solarspatialtools import signalproc as sp
    ix = gen.tindex(4)
    A = pd.DataFrame({'a': [0., 1, 0, 2]}, index=ix)
    rec.step(3)
    rec.raises(ValueError, lambda: sp.correlation(A['a'], A['a'], case['s']),
               'illegal scaling')
    rec.raises(ValueError, lambda: sp.compute_delays(A, A, scaling=case['s']),
               'illegal scaling')
    rec.raises(ValueError, lambda: sp.compute_delays(A, A, mode=case['s']),
               'illegal mode')


def spaces(tier):
    deep = tier == 'thorough'
    SC = ['coeff', 'energy', 'unbiased_energy', 'unbiased_coeff', 'none']
    sizes = [(1, [0, 1, -2]), (2, [0, 1, 3, -1]), (3, [0, 1, 3, -1]),
             (4, [0, 1, 3])] + ([(5, [0, 1, 3])] if deep else [(5, [0, 1])])
    pairs = []
    for n, al in sizes:
        for x in itertools.product(al, repeat=n):
            for cont, dt in (('arr', 1.0), ('series', 0.5), ('list-series', 60.)):
                if n < 2 and cont != 'arr':
                    continue
                if n == 5 and deep and cont != 'series':
                    continue
                pairs.append(dict(x=list(x), alphabet=al, cont=cont, dt=dt,
                                  scalings=SC,
                                  tz='Etc/GMT+5' if cont == 'series' else None))
    for n, al in ((2, [0, 200, 90, 255]), (3, [0, 200, 90, 255])):
        for x in itertools.product(al, repeat=n):
            for cont in ('short', 'byte', 'short arr'):
                pairs.append(dict(x=list(x), alphabet=al, cont=cont, dt=1.0,
                                  scalings=SC))
    batch = []
    for n, al in [(2, [0, 1, 3, -1]), (3, [0, 1, 3, -1]), (4, [0, 1, 3]),
                  (5, [0, 1] if not deep else [0, 1, 3]), (6, [0, 1])]:
        allx = [list(x) for x in itertools.product(al, repeat=n)
                if len(set(x)) > 1]
        group = 3
        for sc in ('coeff', 'none'):
            for g in range(0, len(allx), group):
                for width in (1, 7, 64):
                    if width == 1 and (g // group) % 8:
                        continue
                    batch.append(dict(x=allx[g:g + group], alphabet=al, dt=0.5
                                      if g % 2 else 10.0, scaling=sc,
                                      width=width, int=bool((g // group) % 2),
                                      short=(g // group) % 4 == 3,
                                      amp=(1, 1e-3, 1, 1e-4, 1, 1e5)[
                                          (g // group) % 6]))
    long = [dict(n=n, dt=dt, salt=s, smooth=sm, scale=scale, offset=off,
                 shifts=sh, tz=tz)
            for n in ((16, 17, 100, 101, 512, 1000, 1801) if deep
                      else (31, 100, 101, 600))
            for s, sm, scale, off in ((0, 1, 1.0, 0.0), (1, 3, 800., 100.),
                                      (2, 5, -1., 0.5))
            for dt, tz in ((1.0, None), (0.1, 'UTC'), (300., 'Etc/GMT-3'))
            for sh in ([0, 1, -1, 2, -3],
                       [5, -4] if n > 40 else [2, -2],
                       [0], list(range(-30, 31, 5)) if n > 300 else [1])]
    # many columns, and many samples
    long += [dict(n=n, dt=dt, salt=3, smooth=3, scale=700., offset=90.,
                  shifts=sh, tz='UTC')
             for n, dt, sh in ((300, 1., [s * 7 % 77 - 38 for s in range(150)]),
                               (20000, .5, [0, 17, -33]),
                               (8193, 10., [-5, 4]))]
    return [
        Space('pairs', pairs, run_pairs,
              'all pairs of signals of length 1..5 over 2-4 values, 5 scalings'),
        Space('batches', batch, run_batch,
              'all signals of length 2..6 in batches of 1, 7 and 64 columns'),
        Space('long', long, run_long, 'n up to 20000, up to 150 columns'),
        Space('illegal', [dict(s='nope'), dict(s='ENERGYX')], run_illegal,
              'unknown options'),
    ]
