"""C18: copula downscaling."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C18'
ASSUME = [
    'positions in general arrangement where invariance under translation is '
    'decided (a covariance with degenerate eigenvalues does not determine '
    'the field of a seed beyond rounding)',
    'at least one value is positive where the output is scaled',
    'correlations of the normal field: estimated from 4000 samples of fixed '
    'seeds, tolerance 0.08; everything else holds sample by sample',
]

BASE = {'comp': [0.8051, 7.3605, 0.7092], 'mean': [2.2928, 1.0801, 0.4532],
        'sdevClear': [0.3512, 4.8414, 0.6442],
        'sdevCloud': [0.1997, 5.0919, 0.3863], 'corr_quadr': 0.0043}


def params(i):
    p = {k: (list(v) if isinstance(v, list) else v) for k, v in BASE.items()}
    if i == 1:
        p['comp'] = [.7, 6., .65]
        p['sdevClear'][0] = .2
    elif i == 2:
        p['mean'] = [2.1, 1., .5]
        p['sdevCloud'] = [.3, 4., .45]
    elif i == 3:
        p['corr_quadr'] = .05
    elif i == 4:
        p['comp'][0], p['sdevCloud'][0] = .6, .8     # wide: negatives
    return p


def sig(x, a, c):
    return 1 / (1 + math.exp(-a * (x - c)))


def mixture(m, p):
    """The paper's equations."""
    w1 = 1 - p['comp'][0] * sig(m, p['comp'][1], p['comp'][2])
    w2 = 1 - w1
    mu2 = p['mean'][0] * w1 * m + p['mean'][1] * w2 * (m - p['mean'][2])
    mu1 = (m - w2 * mu2) / w1
    s2 = p['sdevClear'][0] * (1 - sig(m, p['sdevClear'][1],
                                      p['sdevClear'][2]))
    s1 = p['sdevCloud'][0] * sig(m, p['sdevCloud'][1], p['sdevCloud'][2])
    k = max(p['corr_quadr'] * m * (1 - m), 1e-5)
    return [mu1, mu2], [w1, w2], [s1 * s1, s2 * s2], k


def density(x, mu, var, w):
    return np.array([sum(a * math.exp(-(v - b) ** 2 / 2 / c) /
                         math.sqrt(2 * math.pi * c)
                         for a, b, c in zip(w, mu, var)) for v in x])


def run_params(case, rec):
    from solarspatialtools.synthirrad import copula
    p = params(case['p'])
    snap = gen.snapshot(p)
    ms = [.05, .1, .25, .4, .52, .6, .75, .9, .97, 1., 1.05]
    for m in ms:
        rec.step(2)
        mu, w, var, k = copula._process_params(m, p)
        rmu, rw, rvar, rk = mixture(m, p)
        what = f'mean {m} params {case["p"]}'
        rec.close(mu, rmu, 'means ' + what)
        rec.close(w, rw, 'weights ' + what)
        rec.close(var, rvar, 'variances ' + what)
        rec.close(k, rk, 'decay ' + what)
        rec.close(np.dot(mu, w), m, 'mean of the mixture ' + what)
        rec.close(sum(w), 1, 'weights ' + what)
        rec.true(min(w) >= 0, 'weights ' + what)
        for lo, hi, d in ((-2, 2, .01), (-1, 2.5, .05), (0, 1.3, .02)):
            x = np.arange(lo, hi, d)
            rec.step()
            pdf, cdf, kk = copula._solar_gmm(x, m, p)
            f = density(x, rmu, rvar, rw)
            rec.close(pdf, f, 'density ' + what, rtol=1e-7)
            rec.close(cdf, np.cumsum(f) / np.sum(f), 'distribution ' + what,
                      rtol=1e-7, atol=1e-9)
            rec.close(kk, rk, 'decay ' + what)
        rec.outcome((m, case['p']))
    a = np.array(ms)
    rec.step()
    mu, w, var, k = copula._process_params(a, p)
    for j, m in enumerate(ms):
        r = mixture(m, p)
        rec.close([mu[0][j], mu[1][j], w[0][j], w[1][j], var[0][j], var[1][j],
                   k[j]], [*r[0], *r[1], *r[2], r[3]], f'array {m}')
    rec.true(gen.snapshot(p) == snap and np.array_equal(a, ms),
             'arguments unchanged')


def inverse_ref(x, F, r):
    """The value whose cumulated probability is r."""
    pts = [(-0., -2.)]
    last = None
    for a, b in zip(x, F):
        if last is None or b > last:     # first of equal values
            pts.append((b, a))
            last = b
    pts.append((1., 2.))
    out = []
    for q in r:
        i = 0
        while i < len(pts) - 2 and pts[i + 1][0] <= q:
            i += 1
        (f0, x0), (f1, x1) = pts[i], pts[i + 1]
        out.append(x0 if f1 == f0 else x0 + (x1 - x0) * (q - f0) / (f1 - f0))
    return out


def run_inverse(case, rec):
    from solarspatialtools.synthirrad import copula
    n = case['n']
    lv = [0, .1, .25, .25, .5, .9, 1.]
    x = np.linspace(-1, 1.5, n)
    for F in itertools.combinations_with_replacement(sorted(set(lv)), n):
        r = np.array([.05, .1, .2, .25, .3, .5, .7, .9, .95, .999])
        want = np.array(inverse_ref(x, F, r))
        flat = [q for q in r if any(abs(q - f) < 1e-12 for f in F)]
        keep = np.array([q not in flat for q in r])
        rec.step(2)
        got = copula._inverse_sample(x, np.array(F), r)
        rec.close(got[keep], want[keep], f'inverse {F}')
        rec.true(bool(np.all(np.diff(got) >= -1e-12)), f'increasing {F}')
        rec.true(got.min() >= -2 and got.max() <= 2, f'range {F}')
        two = copula._inverse_sample(list(x), list(F), r.reshape(2, 5))
        rec.close(two, got.reshape(2, 5), f'shape {F}')
        s = copula._inverse_sample(x, np.array(F), .3)
        rec.true(np.ndim(s) == 0, 'scalar')
        rec.close(s, got[4], f'scalar {F}')
        rec.outcome(F)


def run_copula(case, rec):
    """The normal field behind the samples has correlation exp(-k d)."""
    from scipy.stats import norm
    from solarspatialtools.synthirrad import copula
    pts, k, seed = np.array(case['pts'], float), case['k'], case['seed']
    D = np.hypot(*(pts[:, None, :] - pts[None]).transpose(2, 0, 1))
    N = 4000
    R = np.exp(-k * D)
    rec.step(3)
    u = copula._copularnd_gaussian(N, R, seed)
    rec.same(u.shape, (N, len(pts)), 'shape')
    rec.true(u.min() >= 0 and u.max() <= 1, 'uniform range')
    q = np.sort(u, axis=0)
    rec.true(np.abs(q - (np.arange(N) + .5)[:, None] / N).max() < .04,
             'uniform marginals')
    C = np.corrcoef(norm.ppf(u).T)
    rec.true(np.abs(C - R).max() < .08, lambda: f'correlations {C.round(2)} '
             f'instead of {R.round(2)}')
    x = np.linspace(-1.9, 1.9, 77)
    F = norm.cdf(x, .4, .5)
    F = F / F.max()
    s = copula._space_time_copula(N, D, x, F, k, seed)
    rec.same(s.shape, (N, len(pts)), 'shape')
    z = (s - .4) / .5
    C = np.corrcoef(z.T)
    rec.true(np.abs(C - R).max() < .09, lambda: f'correlations {C.round(2)} '
             f'instead of {R.round(2)} of the samples')
    rec.close(s, copula._inverse_sample(x, F, u), 'samples of the uniforms',
              rtol=1e-6, atol=1e-7)
    rec.close(copula._space_time_copula(N, D, x, F, k, seed), s,
              'reproducible', rtol=0)
    rec.outcome((case['k'], seed))


SITES = {
    'one': [(0, 0)],
    'two': [(0, 0), (30, 10)],
    'three': [(0, 0), (30, 10), (-17, 40)],
    'five': [(0, 0), (30, 10), (-17, 40), (55, -23), (8, 71)],
    'many': [(k * 37 % 101 * 3.5, k * 53 % 97 * 2.25) for k in range(20)],
}


def call(times, xy, spd, dr, m, p, **kw):
    from solarspatialtools.synthirrad import copula
    xy = np.array(xy, float)
    return copula.downscale(times, xy[:, 0].copy(), xy[:, 1].copy(), spd, dr,
                            m, p, **kw)


def run_scale(case, rec):
    """Shape, range, mean and the meaning of the switches."""
    xy, m, p = SITES[case['sites']], case['mean'], params(case['p'])
    t = gen.tindex(case['nt'], case['dt'], case['tz'])
    for seed, (spd, dr) in itertools.product(case['seeds'], (
            (10, .4), (0, 0), (3.5, -2), (8., 5.))):
        snap = gen.snapshot([t, p])
        out = {}
        for scale, noneg in itertools.product((True, False), repeat=2):
            rec.step()
            r = call(t, xy, spd, dr, m, p, seed=seed, scale=scale, noneg=noneg)
            out[scale, noneg] = np.array(r)
            rec.same(np.shape(r), (len(t), len(xy)), f'shape {case}')
        raw = out[False, False]
        what = f'seed {seed} motion {spd} {dr} {case}'
        rec.true(bool(np.all(np.isfinite(raw)) and raw.min() >= -2 and
                      raw.max() <= 2), lambda: f'range {raw} {what}')
        cut = np.where(raw < 0, 0, raw)
        rec.close(out[False, True], cut, 'negatives are zero ' + what)
        rec.extra['negative'] += int((raw < 0).sum())
        for noneg, b in ((True, cut), (False, raw)):
            if abs(b.mean()) < 1e-3:
                continue
            rec.close(out[True, noneg].mean(), m, 'mean ' + what)
            rec.close(out[True, noneg], b * m / b.mean(), 'scaled ' + what)
        if abs(cut.mean()) > 1e-3:
            rec.true(out[True, True].min() >= 0, 'negatives ' + what)
        rec.step(2)
        d = call(t, xy, spd, dr, m, p, seed=seed)
        rec.close(d, out[True, True], 'defaults ' + what, rtol=1e-12)
        again = call(t, xy, spd, dr, m, p, seed=seed, scale=False,
                     noneg=False)
        rec.close(again, raw, 'reproducible ' + what, rtol=1e-12)
        rec.true(gen.snapshot([t, p]) == snap, 'arguments unchanged')
        rec.outcome(str(np.round(raw, 3).tolist()))
        # all sites at one place, no motion: see run_same
        # the same field under other mixtures: increasing images
        order = np.argsort(raw.ravel(), kind='stable')
        for i in (0, 1, 2, 4):
            q = params(i)
            q['corr_quadr'] = p['corr_quadr']
            rec.step()
            o = call(t, xy, spd, dr, m, q, seed=seed, scale=False,
                     noneg=False).ravel()[order]
            rec.true(bool(np.all(np.diff(o) >= -1e-9)), lambda:
                     f'params {i} is no increasing image {what}')
            # by the same quantiles
            mu, w, var, _ = mixture(m, q)
            x = np.arange(-2, 2, .01)
            f = density(x, mu, var, w)
            F = np.cumsum(f) / f.sum()
            mu0, w0, var0, _ = mixture(m, p)
            f0 = density(x, mu0, var0, w0)
            F0 = np.cumsum(f0) / f0.sum()
            # quantiles of the values, under both mixtures; between the cells
            # of the axis both are linear
            s = raw.ravel()[order]
            lo, hi = np.interp(s - .011, x, F0), np.interp(s + .011, x, F0)
            a = np.interp(o - .011, x, F)
            b = np.interp(o + .011, x, F)
            rec.true(bool(np.all((a <= hi + 1e-9) & (b >= lo - 1e-9))),
                     lambda: f'quantiles of params {i} {what}')


def run_same(case, rec):
    """Zero distance after the drift: identical values."""
    v, dr, dt = case['v'], case['dir'], case['dt']
    nt, m, p = case['nt'], case['mean'], params(case['p'])
    t = gen.tindex(nt, dt, case['tz'])
    ux, uy = math.cos(dr), math.sin(dr)
    chain = [(12 + j * v * dt * ux, -5 + j * v * dt * uy)
             for j in case['steps']]
    other = [(40., 33.), (12., -5.)][:case['others']]
    xy = chain + other
    st = list(case['steps']) + [None, 0][:case['others']]
    for seed in case['seeds']:
        rec.step()
        r = np.asarray(call(t, xy, v, dr, m, p, seed=seed, scale=False,
                            noneg=False))
        vals = {}
        for i, s in itertools.product(range(nt), range(len(xy))):
            if st[s] is not None:
                vals.setdefault(st[s] - i, []).append(
                    (r[i, s], f'time {i} site {s}'))
        for k, g in vals.items():
            for x, n in g:
                rec.true(abs(x - g[0][0]) < 2e-5, lambda: f'{n} and {g[0][1]}'
                         f' have the drift compensated distance zero but '
                         f'{x} and {g[0][0]} {case}')
        means = [np.mean([x for x, _ in g]) for g in vals.values()]
        rec.true(len(means) < 2 or np.ptp(means) > 1e-6,
                 f'all places are alike {case}')
        rec.outcome(str(np.round(r, 3).tolist()))
    # no motion: constant in time
    rec.step()
    r = np.asarray(call(t, xy, 0, dr, m, p, seed=1, scale=False, noneg=False))
    rec.true(bool(np.ptp(r, axis=0).max() < 2e-5), f'no motion {case}')
    # one place: identical columns
    rec.step()
    r = np.asarray(call(t, [(7., 7.)] * 3, v, dr, m, p, seed=1, scale=False,
                        noneg=False))
    rec.true(bool(np.ptp(r, axis=1).max() < 2e-5), f'one place {case}')


def run_shift(case, rec):
    xy = np.array(SITES[case['sites']], float)
    m, p, spd, dr = case['mean'], params(case['p']), case['v'], case['dir']
    t = gen.tindex(case['nt'], case['dt'], case['tz'])
    for seed in case['seeds']:
        kw = dict(seed=seed, scale=case['scale'], noneg=True)
        rec.step()
        want = call(t, xy, spd, dr, m, p, **kw)
        for off in ((1000, -500), (0, .5), (4096, 8192)):
            rec.step()
            rec.close(call(t, xy + np.array(off), spd, dr, m, p, **kw), want,
                      f'translation {off} {case}', rtol=0, atol=1e-6)
        for s, tz in (('2019-12-31 23:59:58', None),
                      ('2021-03-28 00:59:57', 'UTC')):
            ix = gen.tindex(case['nt'], case['dt'], tz, s)
            if tz:
                ix = ix.tz_convert('Europe/Berlin')
            rec.step()
            rec.close(call(ix, xy, spd, dr, m, p, **kw), want,
                      f'times from {s} {case}', rtol=0, atol=1e-6)
        rec.outcome(str(np.round(want, 3).tolist()))


def spaces(tier):
    deep = tier == 'thorough'
    seeds = [1, 2, 3] if not deep else list(range(12))
    cop = [dict(pts=pts, k=k, seed=s)
           for pts in ([(0, 0), (10, 0)], [(0, 0), (20, 5), (-30, 60)],
                       [(0, 0), (5, 0), (5, 30), (200, 0), (400, 0)])
           for k in (1e-5, .003, .02, .1) for s in seeds]
    scale = [dict(sites=s, mean=m, p=p, nt=nt, dt=dt, tz=tz,
                  seeds=[0] + seeds[:-1])
             for s in SITES if s != 'many' for m in (.2, .5, .8, .97) for p in range(5)
             for nt, dt, tz in ((1, 1, None), (7, 1, 'UTC'),
                                (4, 30, 'US/Eastern'))
             if deep or (p + nt) % 2 or s == 'two']
    scale += [dict(sites=s, mean=m, p=p, nt=nt, dt=1, tz='UTC', seeds=[3])
              for s, m, p, nt in (('many', .7, 0, 20), ('two', .45, 3, 300))]
    same = [dict(v=v, dir=d, dt=dt, nt=nt, mean=m, p=p, tz=tz, steps=st,
                 others=o, seeds=seeds[:2])
            for v, dt in ((10, 1), (4.5, 2), (7, .5))
            for d in (0, .4, math.pi / 2, 2.5, -1.2, math.pi)
            for nt, st in ((3, (0, 1)), (4, (0, 1, 2)), (3, (0, -1, 2)),
                           (4, (0, 0)))
            for m, p, tz, o in ((.5, 0, None, 0), (.7, 3, 'UTC', 1),
                                (.3, 4, None, 2))]
    same += [dict(v=6., dir=.7, dt=1, nt=nt, mean=.6, p=0, tz=None,
                  steps=tuple(range(m)), others=0, seeds=[4])
             for nt, m in ((60, 3), (12, 16))]
    shift = [dict(sites=s, mean=m, p=p, v=v, dir=d, nt=nt, dt=1, tz=None,
                  seeds=seeds[:2], scale=sc)
             for s in ('two', 'three', 'five') for m, p in ((.5, 0), (.8, 3))
             for v, d in ((10, .4), (3, 2.), (0.5, -1))
             for nt in (1, 3, 6) for sc in (True, False)]
    return [
        Space('params', [dict(p=i) for i in range(5)], run_params,
              'indices x parameters'),
        Space('inverse', [dict(n=n) for n in range(1, 6)], run_inverse,
              'all distributions of up to five cells on six levels'),
        Space('copula', cop, run_copula, 'points x decays x seeds'),
        Space('scale', scale, run_scale, 'all switches'),
        Space('same', same, run_same, 'chains along the motion'),
        Space('shift', shift, run_shift, 'translations of sites and times'),
    ]
