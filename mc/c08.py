"""C08: delays from transfer functions."""
import itertools
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C08'
ASSUME = [
    'phase steps between neighbouring frequencies are below pi (otherwise no '
    'unwrapping can tell the delay)',
    'for the simultaneous fit, incoherent bins are off by less than a wrap '
    '(its unwrapping passes through them)',
    'signal level: delays up to a twentieth of a segment, tolerance 0.25 sampling '
    'periods plus 15 % (windowing bias of the estimator on short segments)',
    'columns without any usable bin: NaN from the single fit; the '
    'simultaneous fit does not define them unless the signals are missing',
]


def fit_ref(f, ph):
    return -np.dot(f, ph) / (2 * np.pi * np.dot(f, f))


def run_exact(case, rec):
    """Exact transfer functions, every coherence pattern over the bins."""
    from solarspatialtools import signalproc as sp
    nb, df = case['bins'], case['df']
    f = np.arange(nb) * df
    flim = case['flim']
    lim = case['climit']
    below = np.ones(nb, bool) if flim is None else f < flim
    delays = [k * case['step'] / df for k in range(-4, 5)]
    tol = min(1e-6, 1e-4 * case['step']) / df
    for mask in itertools.product([False, True], repeat=nb):
        mask = np.array(mask)
        use = below & (mask if lim is not None else True)
        if not np.any(f[use] > 0):
            continue
        # coherences around the limit; at the limit itself counts as too low
        L = 0.6 if lim is None else lim
        coh = np.where(mask, L + 0.05 * (1 + np.arange(nb) % 3),
                       L - 0.3 * (np.arange(nb) % 2))
        gap = np.max(np.diff(np.flatnonzero(use))) if use.sum() > 1 else 0
        first = np.flatnonzero(use)[0]
        for method in case['methods']:
            cols = {}
            for i, d in enumerate(delays):
                if 2 * np.pi * abs(d) * df * max(gap, first, 1) > 3.0:
                    continue
                ph = -2 * np.pi * f * d
                bad = ~use
                if method == 'fit':
                    ph = ph + bad * (1.9 + np.arange(nb))
                elif method == 'multi':
                    ph = ph + bad * 0.4 * (-1) ** np.arange(nb)
                cols[i] = (1 + .5 * np.arange(nb)) * np.exp(1j * ph)
            if not cols:
                continue
            T = pd.DataFrame(cols, index=f)
            C = pd.DataFrame({i: coh for i in cols}, index=f)
            kw = dict(coh_limit=lim, freq_limit=flim, method=method)
            what = f'{method} mask {mask.astype(int).tolist()} {case}'
            if method == 'multi':
                rec.step()
                got, ix = sp.tf_delay(T, C, **kw)
                rec.close(got, [delays[i] for i in cols], 'delays, ' + what,
                          rtol=1e-5, atol=tol)
                rec.true(np.array_equal(ix, np.array([use] * len(cols)).T),
                         'bins used, ' + what)
            for i in cols:
                if method == 'multi' and i % 3:
                    continue
                a, b = (T[i], C[i]) if i % 2 else (T[[i]], C[[i]])
                rec.step()
                got, ix = sp.tf_delay(a, b, **kw)
                rec.close(np.ravel(got)[0], delays[i],
                          f'delay {delays[i]}, {what}', rtol=1e-5,
                          atol=tol)
                rec.true(np.array_equal(np.ravel(ix), use),
                         'bins used, ' + what)
                rec.outcome(round(float(np.ravel(got)[0]), 6))


def run_nothing(case, rec):
    """No usable bins."""
    from solarspatialtools import signalproc as sp
    f = np.arange(6) * .01
    T = pd.Series(np.exp(-2j * np.pi * f * 3), index=f)
    C = pd.Series(np.full(6, .3), index=f)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        rec.step()
        d, ix = sp.tf_delay(T, C, 0.6, case['flim'], method='fit')
    rec.true(np.isnan(d), f'delay {d} without coherent bins')
    rec.true(not np.any(ix), 'bins used')


def field_signal(t, salt=0):
    """A smooth broadband signal as a function of continuous time [s/dt]."""
    s = 0.6 + 0 * t
    for k in range(1, 40):
        f = 0.0009 * k + 0.00031 * (k % 3)
        s = s + 0.05 / (1 + 0.02 * k) * np.sin(
            2 * np.pi * f * t + 7.1 * ((k * (k + 3 + salt)) % 17))
    return s


def signals(case, delays):
    n, dt = case['n'], case['dt']
    t = np.arange(n, dtype=float)
    x = field_signal(t, case['salt'])
    ys = [field_signal(t - d, case['salt']) for d in delays]
    ix = gen.tindex(n, dt, case['tz'])
    return x, ys, ix


def run_signals(case, rec):
    """Sub-sample delays of both signs through the whole chain."""
    from solarspatialtools import signalproc as sp, field
    dt = case['dt']
    dl = case['delays']
    x, ys, ix = signals(case, dl)
    kw = dict(navgs=case['navgs'], freq_limit=0.02 / dt)
    li = gen.labels(case['labels'], len(dl))
    B = pd.DataFrame(np.array(ys).T, index=ix, columns=li)
    a = pd.Series(x, index=ix, name='ref')
    for method in ('fit', 'multi'):
        if case['form'] == 'one-many':
            A, BB, want = a, B, np.array(dl)
        elif case['form'] == 'frame-many':
            A, BB, want = pd.DataFrame({'q': a}), B, np.array(dl)
        elif case['form'] == 'many-one':
            A, BB, want = B, a, -np.array(dl)
        elif case['form'] == 'pairs':     # pair i: delay of i+1 against i
            A = B.iloc[:, :-1]
            BB = B.iloc[:, 1:]
            want = np.diff(dl)
        elif case['form'] == 'collide':   # equal combined names
            A = pd.DataFrame({'a': x, 'a_b': ys[0]}, index=ix)
            BB = pd.DataFrame({'b_c': ys[1], 'c': ys[2]}, index=ix)
            want = np.array([dl[1], dl[2] - dl[0]])
        rec.step()
        d, ex = sp.compute_delays_tf(A, BB, method=method, **kw)
        rec.same(np.shape(d), want.shape, f'shape of the delays, {method}')
        tol = (0.25 + 0.15 * np.abs(want)) * dt
        rec.true(np.all(np.abs(np.asarray(d) - want * dt) <= tol),
                 lambda: f'{method} {case["form"]}: delays {list(d)}, '
                 f'expected {list(want * dt)}')
        rec.outcome([round(float(v) / dt, 2) for v in d])
        check_extras(rec, A, BB, d, ex, case, kw, 0.6, method)
        if case['form'] in ('one-many', 'pairs'):
            # every pair alone
            for k in range(0, len(want), 2):
                rec.step()
                ak = A if A.ndim == 1 else A.iloc[:, k]
                d1, e1 = sp.compute_delays_tf(ak, BB.iloc[:, k], method=method,
                                              **kw)
                rec.close(d1, [d[k]], f'{method} pair {k} alone', rtol=1e-4,
                          atol=1e-4 * dt)
                rec.close(e1['mean_coh'], [ex['mean_coh'][k]], 'mean_coh alone')
        if case['form'] == 'one-many':
            BR = B.copy()
            BR['ref'] = x
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                rec.step()
                fd, fc = field.compute_delays(BR, 'ref', method=method, **kw)
            rec.close(fd[:-1], d, 'field.compute_delays', rtol=1e-4,
                      atol=1e-4 * dt)
            rec.close(fd[-1], 0.0, 'delay to itself', atol=1e-6 * dt)
            rec.close(fc[:-1], ex['mean_coh'], 'field coherence', rtol=1e-6)


def check_extras(rec, A, B, d, ex, case, kw, lim, method):
    """Mask and mean coherence from the (separately checked) coherence."""
    from solarspatialtools import signalproc as sp
    tf, coh = sp.averaged_tf(A, B, navgs=kw['navgs'], detrend=None)
    below = tf.index.values < kw['freq_limit']
    want = (coh.values > lim) & below[:, None]
    rec.true(np.array_equal(ex['ix'], want), f'{method}: bins used')
    rec.close(ex['mean_coh'], np.nansum(coh.values[below], axis=0) / below.sum(),
              f'{method}: mean coherence')


def run_limits(case, rec):
    """Coherence and frequency limits are respected at signal level."""
    from solarspatialtools import signalproc as sp
    dl = [2.5, -4.0, 7.25]
    x, ys, ix = signals(case, dl)
    n = case['n']
    noise = [gen.hash01(n, 50 + i) - .5 for i in range(3)]
    B = pd.DataFrame({i: y + case['noise'] * e
                      for i, (y, e) in enumerate(zip(ys, noise))}, index=ix)
    a = pd.Series(x, index=ix)
    for method in ('fit', 'multi'):
        kw = dict(navgs=case['navgs'], freq_limit=case['flim'] / case['dt'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            rec.step()
            d, ex = sp.compute_delays_tf(a, B, coh_limit=case['clim'],
                                         method=method, **kw)
        check_extras(rec, a, B, d, ex, case, kw, case['clim'], method)
        tf, coh = sp.averaged_tf(a, B, navgs=case['navgs'], detrend=None)
        below = tf.index.values < kw['freq_limit']
        for i in range(3):
            m = below & (coh.values[:, i] > case['clim'])
            f = tf.index.values
            if method == 'fit':
                ph = np.unwrap(np.angle(tf.values[m, i]))
                if np.any(f[m] > 0):
                    rec.close(d[i], fit_ref(f[m], ph), f'fit {i} {case}',
                              rtol=1e-4, atol=1e-4 * case['dt'])
                elif not m.any():
                    rec.true(np.isnan(d[i]), 'no usable bin')
            elif np.any(f[m] > 0):
                ph = np.unwrap(np.angle(tf.values[below, i]))
                fb, mb = f[below], m[below]
                rec.close(d[i], -np.sum(ph[mb]) / (2 * np.pi * np.sum(fb[mb])),
                          f'multi {i} {case}', rtol=1e-4, atol=1e-4 * case['dt'])
        rec.outcome(ex['ix'].sum(axis=0).tolist())
        # no limit at all is one that nothing reaches
        for none in (('coh_limit',), ('freq_limit',),
                     ('coh_limit', 'freq_limit')):
            rec.step()
            lim = dict(coh_limit=case['clim'], freq_limit=kw['freq_limit'])
            wide = dict(lim, **{k: dict(coh_limit=-1., freq_limit=1e9)[k]
                                for k in none})
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                d, ex = sp.compute_delays_tf(
                    a, B, case['navgs'], method=method,
                    **dict(lim, **dict.fromkeys(none)))
                e, ey = sp.compute_delays_tf(a, B, case['navgs'],
                                             method=method, **wide)
            rec.close(d, e, f'{method} without {none}', rtol=1e-6,
                      atol=1e-7 * case['dt'])
            rec.close(ex['mean_coh'], ey['mean_coh'], f'without {none}')
            rec.true(np.array_equal(ex['ix'], ey['ix']), f'without {none}')


def run_missing(case, rec):
    """Missing columns give NaN and leave the others alone."""
    from solarspatialtools import signalproc as sp
    dl = [0.5, -3.0, 6.25, 10.0]
    x, ys, ix = signals(case, dl)
    clean = pd.DataFrame(np.array(ys).T, index=ix, columns=list('dbca'))
    B = clean.copy()
    for k, kind in case['missing']:
        if kind == 'all':
            B.iloc[:, k] = np.nan
        else:
            B.iloc[case['n'] // 3, k] = np.nan
    a = pd.Series(x, index=ix)
    gone = {k for k, kind in case['missing']}
    kw = dict(navgs=case['navgs'], freq_limit=0.02 / case['dt'])
    for method in ('fit', 'multi'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            rec.step(2)
            d, ex = sp.compute_delays_tf(a, B, method=method, compute_xcorr=True,
                                         **kw)
            ref, rex = sp.compute_delays_tf(a, clean, method=method,
                                            compute_xcorr=True, **kw)
        for k in range(4):
            part = [kind for j, kind in case['missing'] if j == k]
            if k in gone:
                if part == ['all']:
                    rec.true(np.isnan(d[k]), f'{method}: delay {d[k]} of a '
                             f'missing signal')
                    rec.true(not ex['ix'][:, k].any(), 'bins of a missing signal')
                    rec.true(np.isnan(ex['peak_corr'][k]), 'peak_corr')
            else:
                rec.close(d[k], ref[k], f'{method}: column {k} beside {gone}',
                          rtol=1e-4, atol=1e-4 * case['dt'])
                for q in ('mean_coh', 'peak_corr', 'mean_corr', 'zero_corr'):
                    rec.close(ex[q][k], rex[q][k], f'{method}: {q} {k}',
                              rtol=1e-3)
        rec.outcome([bool(np.isnan(v)) for v in d])


def run_xcorr(case, rec):
    """The correlation metrics next to the delays."""
    from solarspatialtools import signalproc as sp
    from mc.c06 import reference
    dl = case['delays']
    x, ys, ix = signals(case, dl)
    dt = case['dt']
    B = pd.DataFrame(np.array(ys).T, index=ix)
    form = case['form']
    A = pd.Series(x, index=ix)
    if form == 'pairs':
        A = pd.DataFrame({i: x * (1 + i) for i in range(len(dl))}, index=ix)
    if form == 'many-one':
        A, B = B, A
    rec.step()
    d, ex = sp.compute_delays_tf(A, B, navgs=case['navgs'],
                                 freq_limit=.02 / dt, compute_xcorr=True)
    for i in range(len(dl)):
        u = (A if A.ndim == 1 else A.iloc[:, i]).values
        v = (B if B.ndim == 1 else B.iloc[:, i]).values
        lags, c = reference(u, v, 'coeff', True)
        rec.close(ex['mean_corr'][i], c.mean(), f'mean_corr {i}', rtol=1e-6,
                  atol=1e-9)
        rec.close(ex['zero_corr'][i], c[len(u) - 1], f'zero_corr {i}', rtol=1e-7)
        rec.close(ex['peak_corr'][i], np.interp(-d[i], lags * dt, c),
                  f'peak_corr {i}', rtol=1e-6)
        rec.true(ex['peak_corr'][i] > 0.8, f'peak_corr {i} is low')
    rec.step()
    plain, ex0 = sp.compute_delays_tf(A, B, navgs=case['navgs'],
                                      freq_limit=.02 / dt)
    rec.close(plain, d, 'delays without the metrics')
    rec.same(sorted(k for k in ex0), ['ix', 'mean_coh'], 'extras')


def run_illegal(case, rec):
    from solarspatialtools import signalproc as sp
    x, ys, ix = signals(dict(n=200, dt=1.0, tz=None, salt=0), [1.0])
    a, b = pd.Series(x, index=ix), pd.Series(ys[0], index=ix)
    rec.step(2)
    rec.raises(ValueError, lambda: sp.compute_delays_tf(a, b, method='diffs'),
               'unknown method')
    tf, coh = sp.averaged_tf(a, b, 4)
    rec.raises(ValueError, lambda: sp.tf_delay(tf, coh, method='x'),
               'unknown method')


def spaces(tier):
    deep = tier == 'thorough'
    exact = [dict(bins=nb, df=df, flim=fl if fl is None else fl * df, climit=cl,
                  step=st, methods=['fit', 'multi'])
             for nb in ((4, 5, 6, 7) if deep else (4, 6))
             for df in (0.001, 0.05)
             for fl in (None, nb - 0.5, nb - 2.0, 2.5)
             for cl in (0.6, 0.9, None)
             for st in ((0.1, 0.02) if not deep else (0.1, 0.02, 0.06, 1e-5))]
    exact += [dict(bins=nb, df=df, flim=None, climit=None, step=st,
                   methods=['diff', 'fit', 'multi'])
              for nb in (3, 5, 8) for df in (0.001, 0.05)
              for st in (0.1, 0.03, 1e-4, 1e-6)]
    sigs = [dict(n=n, dt=dt, tz=tz, salt=s, navgs=na, delays=dl, form=form,
                 labels=lab)
            for n in ((900, 1201, 2400, 3600) if deep else (1201, 2400))
            for na in ((3, 5) if n < 2000 else (3, 5, 8))
            for dt, tz in ((1.0, None), (0.1, 'UTC'), (10., 'Etc/GMT+5'))
            for s in ((0, 1, 2) if deep else (0, 1))
            for dl in ([0.0, 0.5, -0.75, 1.0], [-10.0, 3.25, 12.5, -6.0])
            for form in ('one-many', 'frame-many', 'many-one', 'pairs',
                         'collide')
            for lab in (('str', 'int', 'cmb') if deep else ('int',))]
    sigs += [dict(n=n, dt=1., tz=None, salt=1, navgs=5, form=f, labels='int',
                  delays=[(k * 37 % 91) / 4 - 11 for k in range(m)])
             for n, m, f in ((1201, 60, 'one-many'), (1201, 60, 'pairs'),
                             (20000, 3, 'one-many'), (20000, 3, 'many-one'))]
    lims = [dict(n=1501, dt=dt, tz=None, salt=0, navgs=na, noise=ns, flim=fl,
                 clim=cl)
            for dt in (1.0, 0.5) for na in (4, 6) for ns in (0.05, 0.2, 0.6, 3.)
            for fl in (0.01, 0.02, 0.03) for cl in (0.3, 0.6, 0.9, 0.99)]
    miss = [dict(n=1201, dt=dt, tz=None, salt=1, navgs=4, missing=[
                [k, kind] for k, kind in zip(ks, kinds)])
            for dt in (1.0, 2.0) for r in ((1, 2, 3, 4) if deep else (1, 2))
            for ks in itertools.combinations(range(4), r)
            for kinds in itertools.product(('all', 'one'), repeat=r)]
    xc = [dict(n=n, dt=dt, tz=None, salt=s, navgs=5, delays=[0., 2.25, -5.5, 8.],
               form=f) for n in (600, 901) for dt in (1.0, .5, 30.)
          for s in (0, 1) for f in ('one-many', 'pairs', 'many-one')]
    return [
        Space('exact', exact, run_exact,
              'all coherence masks over up to 6-7 bins x 9 delays x limits', chunk=1),
        Space('nothing', [dict(flim=f) for f in (None, .03)], run_nothing,
              'no coherent bin'),
        Space('signals', sigs, run_signals, 'menu of delays and forms'),
        Space('limits', lims, run_limits, 'product of limits and noise levels'),
        Space('missing', miss, run_missing, 'all placements of missing columns'),
        Space('xcorr', xc, run_xcorr, 'metrics beside the delays'),
        Space('illegal', [dict()], run_illegal, 'unknown options'),
    ]
