"""C09: filters in the frequency domain against circular convolution."""
import cmath
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C09'
ASSUME = [
    'one signal (Series) and one filter (Series) for apply_filter; '
    'apply_delay returns the values of a single transfer function in order',
    'magnitudes are positive and neighbouring phases do not differ by exactly '
    'pi (unwrapping is undefined there)',
]


def unwrap(ph):
    out = [ph[0]]
    for p in ph[1:]:
        d = p - out[-1]
        d = d - 2 * math.pi * math.floor((d + math.pi) / (2 * math.pi))
        out.append(out[-1] + d)
    return out


def interp_ref(f, H, new):
    """Magnitude and unwrapped phase, linear between the frequencies."""
    o = sorted(range(len(f)), key=lambda k: f[k])
    fs = [f[k] for k in o]
    mag = [abs(H[k]) for k in o]
    ph = unwrap([cmath.phase(H[k]) for k in o])
    out = []
    for x in new:
        k = max(0, min(len(fs) - 2, next(
            (i for i in range(len(fs) - 1) if x <= fs[i + 1]), len(fs) - 2)))
        w = (x - fs[k]) / (fs[k + 1] - fs[k])
        out.append(((1 - w) * mag[k] + w * mag[k + 1]) *
                   cmath.exp(1j * ((1 - w) * ph[k] + w * ph[k + 1])))
    return np.array(out)


MAGS = [1., 2.5, 0.25]
PHASES = [0., 2.0, -2.5, 3.0, -0.7]


def new_freqs(f):
    s = sorted(f)
    mids = [a + w * (b - a) for a, b in zip(s, s[1:]) for w in (.25, .5, .9)]
    return [s, mids, s[::-1], [s[0]] + mids[::-1] + [s[-1]], [mids[0]]]


def run_interp(case, rec):
    from solarspatialtools import signalproc as sp
    f = case['f']
    n = len(f)
    perms = list(itertools.permutations(range(n))) if n < 5 else \
        [list(range(n)), list(range(n))[::-1], [2, 0, 4, 1, 3][:n]]
    for k, phs in enumerate(itertools.product(PHASES, repeat=n)):
        if phs[0] != case['p0']:
            continue
        for mags in ([MAGS[(k + i) % 3] for i in range(n)],
                     [MAGS[(k * i) % 3] for i in range(n)]):
            H = [m * cmath.exp(1j * p) for m, p in zip(mags, phs)]
            H2 = [h * cmath.exp(2j) * 3 for h in H[::-1]]
            for j, perm in enumerate(perms):
                if (j + k) % case['thin']:
                    continue
                fp = [f[i] for i in perm]
                for q, nf in enumerate(new_freqs(f)):
                    want = interp_ref(f, H, nf)
                    form = (k + j + q) % 3
                    x = [np.array(nf), pd.Index(nf), list(nf)][form]
                    what = f'{mags} {phs} order {perm} at {nf}'
                    S = pd.Series([H[i] for i in perm], index=fp, name='tf')
                    if q % 2 == 0:
                        rec.step()
                        got = sp.interp_tf(x, S)
                        rec.true(isinstance(got, pd.Series) and
                                 list(got.index) == list(nf),
                                 lambda: f'{type(got)} with {nf}')
                        rec.close(got.values, want, what, atol=1e-9)
                    else:
                        D = pd.DataFrame({'b': S.values,
                                          'a': [H2[i] for i in perm]},
                                         index=fp)
                        rec.step()
                        got = sp.interp_tf(x, D)
                        rec.frame(got, list(nf), ['b', 'a'], what)
                        rec.close(got.values, np.array(
                            [want, interp_ref(f, H2, nf)]).T, what, atol=1e-9)
            rec.outcome((mags, phs))
    # outside of the range
    S = pd.Series([1., 1j, -1][:n] + [1.] * (n - 3), index=f)
    for bad in ([max(f) * 1.01 + .01], [min(f) - .01]):
        rec.step()
        rec.raises(ValueError, lambda: sp.interp_tf(np.array(bad), S),
                   f'{bad} outside of {f}')


def signal(n, kind):
    if isinstance(kind, int):
        x = np.zeros(n)
        x[kind % n] = 1
        return x
    return gen.hash01(n, 3) * 5 - 1 if kind == 'hash' else \
        np.cos(np.arange(n) * 1.3) + np.arange(n) * .2


def spectrum(h, freqs, dt):
    return np.array([sum(h[k] * cmath.exp(-2j * math.pi * f * k * dt)
                         for k in range(len(h))) for f in freqs])


def order(f, kind):
    f = np.asarray(f)
    if kind == 'fft':
        return f
    if kind == 'up':
        return np.sort(f)
    if kind == 'down':
        return np.sort(f)[::-1]
    o = np.argsort(gen.hash01(len(f), 9))
    return f[o]


def run_apply(case, rec):
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    ix = gen.tindex(n, dt, case['tz'])
    x = signal(n, case['signal'])
    S = pd.Series(x, index=ix, name='ghi')
    H = {'unity': [1], 'gain': [2.5], 'shift': [0, 1], 'mean': [.5, .5],
         'long': [.1, .4, .3, .2], 'minus': [1, -.9], 'ones': [1] * n,
         'late': [0] * (n - 1) + [1], 'zero': [0.]}
    for name, h in H.items():
        h = np.array(h, float)
        if len(h) > n:
            continue
        hp = np.concatenate((h, np.zeros(n - len(h))))
        want = [sum(x[(k - j) % n] * hp[j] for j in range(n))
                for k in range(n)]
        for mult, kind in itertools.product((1, 2, 3), ('fft', 'up', 'down',
                                                        'mixed')):
            f = order(np.fft.fftfreq(n * mult, dt), kind)
            C = pd.Series(spectrum(h, f, dt), index=f)
            rec.step()
            got = sp.apply_filter(S, C)
            what = f'{name} grid x{mult} {kind} {case}'
            rec.true(isinstance(got, pd.Series) and got.index.equals(ix),
                     'index ' + what)
            rec.close(got.values.astype(float), want, what, rtol=1e-8,
                      atol=1e-9)
            rec.outcome((name, n, case['signal']))
    rec.true(np.array_equal(S.values, x), 'the signal is unchanged')


def run_between(case, rec):
    """Filters given at other frequencies than those of the signal."""
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    x = signal(n, case['signal'])
    S = pd.Series(x, index=gen.tindex(n, dt))
    fs = np.fft.fftfreq(n, dt)
    top = .5 / dt
    for m, wide, kind in itertools.product((3, 5, 8, 21), (1., 1.3, 4.),
                                           ('up', 'down', 'mixed')):
        f = order(np.linspace(-top * wide, top * wide, m), kind)
        for name, fun in (('lowpass', lambda v: 1 / (1 + 3j * v * dt)),
                          ('delay', lambda v: np.exp(-2j * np.pi * v * dt
                                                     * .3)),
                          ('mag', lambda v: (1 + np.abs(v) * dt) *
                           np.exp(1j * v * dt))):
            C = pd.Series(fun(f), index=f)
            I = interp_ref(list(f), list(C.values), list(fs))
            X = spectrum(x, fs * dt, 1.)
            want = np.real([sum(X[k] * I[k] * cmath.exp(
                2j * math.pi * fs[k] * dt * j) for k in range(n)) / n
                for j in range(n)])
            rec.step()
            got = sp.apply_filter(S, C)
            rec.close(got.values, want, f'{name} {m} {wide} {kind} {case}',
                      rtol=1e-8, atol=1e-9)
            rec.outcome((name, m, wide))
    # not covering
    for f in (np.linspace(-top, .4 * top, 9), np.linspace(0, top, 9),
              np.linspace(-.3 * top, 2 * top, 9),
              np.linspace(-.2 * top, .2 * top, 5)):
        if n < 3:
            break
        C = pd.Series(np.ones(len(f), complex), index=f)
        rec.step()
        rec.raises(ValueError, lambda: sp.apply_filter(S, C),
                   f'filter over {f.min()}..{f.max()} for {n} samples of {dt}')


def run_delay(case, rec):
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    f = order(np.fft.fftfreq(n, dt), case['order'])
    ix = gen.tindex(n, dt, case['tz'])
    one = pd.Series(np.ones(n), index=f) if case['form'] == 'series' else \
        pd.DataFrame({'tf': np.ones(n, complex)}, index=f)
    x = signal(n, 'hash')
    S = pd.Series(x, index=ix)
    H0 = spectrum([.2, .5, .3], f, dt)
    for d in case['delays']:
        snap = gen.snapshot(one)
        rec.step()
        got = np.asarray(sp.apply_delay(one, d * dt)).ravel()
        want = np.array([cmath.exp(-2j * math.pi * v * d * dt) for v in f])
        what = f'delay {d} samples {case}'
        rec.close(got, want, 'unity ' + what, atol=1e-9)
        rec.true(gen.snapshot(one) == snap, 'the argument is unchanged')
        rec.step()
        got2 = np.asarray(sp.apply_delay(pd.Series(H0, index=f), d * dt))
        rec.close(got2.ravel(), want * H0, 'filter ' + what, atol=1e-9)
        for e in case['delays'][:4]:
            rec.step()
            both = np.asarray(sp.apply_delay(pd.Series(got, index=f),
                                             e * dt)).ravel()
            rec.close(both, np.asarray(sp.apply_delay(
                one, (d + e) * dt)).ravel(), f'{e} after {what}', atol=1e-8)
        if d == int(d):
            rec.step()
            y = sp.apply_filter(S, pd.Series(got, index=f))
            rec.close(y.values, [x[(k - int(d)) % n] for k in range(n)],
                      'shifted later ' + what, rtol=1e-8, atol=1e-9)
        elif n % 2:
            rec.step()
            half = sp.apply_filter(S, pd.Series(got, index=f))
            y = sp.apply_filter(half, pd.Series(got, index=f))
            rec.close(y.values, [x[(k - int(2 * d)) % n] for k in range(n)],
                      'twice ' + what, rtol=1e-8, atol=1e-8)
        rec.outcome((n, d))


def run_large(case, rec):
    """Signals of thousands of samples, filters of hundreds of
    frequencies."""
    from solarspatialtools import signalproc as sp
    n, dt, mult = case['n'], case['dt'], case['mult']
    ix = gen.tindex(n, dt, 'UTC')
    x = gen.hash01(n, 5) * 3 - 1
    S = pd.Series(x, index=ix)
    for name, h in (('mean', [.5, .5]), ('late', [.2] + [0] * (n - 2) + [.8]),
                    ('long', list(gen.hash01(n // 3, 6) / n))):
        h = np.concatenate((h, np.zeros(n - len(h))))
        want = np.fft.irfft(np.fft.rfft(x) * np.fft.rfft(h), n)
        fine = np.fft.fft(h, n * mult)
        o = order(np.arange(n * mult), case['order'])
        C = pd.Series(fine[o], index=np.fft.fftfreq(n * mult, dt)[o])
        rec.step()
        got = sp.apply_filter(S, C)
        rec.true(got.index.equals(ix), f'index {case}')
        rec.close(got.values.astype(float), want, f'{name} {case}', rtol=1e-7,
                  atol=1e-8)
        rec.outcome((name, n))
        # the same filter between its frequencies
        f = np.sort(np.fft.fftfreq(n * mult, dt))
        new = (f[1:] * .7 + f[:-1] * .3)[::-1]
        s = np.argsort(C.index)
        v = C.values[s]
        m, p = np.abs(v), np.unwrap(np.angle(v))
        if np.min(m) > 1e-6:
            rec.step()
            got = sp.interp_tf(new, C)
            rec.close(got.values, np.interp(new, f, m) *
                      np.exp(1j * np.interp(new, f, p)), f'interpolated {name}'
                      f' {case}', rtol=1e-6, atol=1e-7)


def run_clean(case, rec):
    from solarspatialtools import signalproc as sp
    n, dt = case['n'], case['dt']
    f = np.fft.fftfreq(n, dt)
    C = pd.Series(np.arange(n) + 1j, index=f)
    arg = C.copy()
    rec.step()
    got = sp.cleanfreq(arg)
    rec.true(isinstance(got, pd.Series), f'{type(got)} returned')
    rec.close(got.values, C.values, f'values {case}')
    keep = [k for k in range(n) if k != n // 2]
    rec.close(np.array(got.index, float)[keep], f[keep], f'frequencies {case}')
    rec.true(pd.isna(got.index[n // 2]), f'wrap {list(got.index)} {case}')


def spaces(tier):
    deep = tier == 'thorough'
    grids = [[0, .1, .25], [-.2, 0, .1, .3], [1e-3, 2e-3, 5e-3, 9e-3],
             [-.5, -.1, .2]]
    if deep:
        grids += [[-.4, -.1, 0, .2, .5]]
    interp = [dict(f=g, p0=p, thin=(1 if len(g) < 4 else 5) if deep else 8)
              for g in grids for p in PHASES]
    ns = range(2, 10 if not deep else 14)
    apply = [dict(n=n, dt=dt, tz=tz, signal=s)
             for n in ns for dt, tz in ((1., None), (.5, 'UTC'), (60., None),
                                        (.01, 'US/Eastern'))
             for s in list(range(n)) + ['hash', 'ramp']
             if deep or s in (0, 1, n - 1, 'hash', 'ramp')]
    between = [dict(n=n, dt=dt, signal=s) for n in ns for dt in (1., 5., .2)
               for s in (0, 1, 'hash')]
    delay = [dict(n=n, dt=dt, tz=None, order=o, form=fo,
                  delays=[0, 1, -1, .5, 2, -2.5, n - 1, n, 1.5])
             for n in ns if n > 2 for dt in (1., .5, 60.)
             for o in ('fft', 'up', 'down', 'mixed')
             for fo in ('series', 'frame')]
    large = [dict(n=n, dt=dt, mult=m, order=o)
             for n, dt, m in ((501, 1., 3), (2000, .5, 1), (4097, 60., 1),
                              (20000, 1., 1))
             for o in ('fft', 'up', 'mixed')]
    clean = [dict(n=n, dt=dt) for n in (*range(2, 14), 100, 501, 3601) for dt in (1., .5)]
    return [
        Space('interp', interp, run_interp, 'all phase patterns of 3-4 (5) '
              'frequencies x index orders'),
        Space('apply', apply, run_apply, 'signals of 2..9 (13) samples, '
              'impulses, grids, orders'),
        Space('between', between, run_between, 'other frequency grids'),
        Space('delay', delay, run_delay, 'delays'),
        Space('large', large, run_large, 'up to 20000 samples'),
        Space('clean', clean, run_clean, 'lengths'),
    ]
