"""C10: advection filters against the sum of the sites' delays."""
import cmath
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C10'
ASSUME = [
    'sites lie within the domain of the plant; the reference is a position '
    'record (Series with E, N or lat, lon)',
    'square sites: a cell of the axis counts once, however many sites cover '
    'it; the triangular shape is not decided',
    'where coordinates go through a map projection, wide smooth sites are '
    'used, so that rounding does not move a site to the next cell',
]


def site_sum(f, x, v, w=None):
    """The normalised sum of the pure delays."""
    x = np.asarray(x, float)
    w = np.ones(len(x)) if w is None else np.asarray(w, float)
    return np.exp(-2j * math.pi * np.outer(f, x) / v) @ w / w.sum()


def check(rec, got, n, dx, v, want, what, atol=1e-9):
    rec.true(isinstance(got, pd.Series), f'{type(got)} {what}')
    f = np.asarray(got.index, float)
    rec.close(np.sort(f), np.sort(np.fft.fftfreq(n, dx / abs(v))),
              'frequencies ' + what, rtol=1e-9)
    rec.close(got.values, want(f), what, rtol=1e-7, atol=atol)
    zero = np.argmin(np.abs(f))
    rec.close(got.values[zero], 1, 'gain at zero frequency ' + what)


def run_plant(case, rec):
    """The density of the plant."""
    from solarspatialtools import signalproc as sp
    dx, xmax, w, ref = case['dx'], case['xmax'], case['width'], case['ref']
    shape = case['shape']
    lo = -xmax // 2
    axis = [lo + k * dx for k in range(10000) if lo + k * dx < xmax // 2 -
            1e-9 * dx]
    width = dx if w is None else w
    pool = case['pool']
    for m in (1, 2, 3):
        # smooth sites at one place add up
        for cs in itertools.permutations(pool, m) if shape == 'square' else \
                itertools.product(pool, repeat=m):
            if m == 3 and cs[0] > cs[1]:
                continue
            for form in ((cs, list, np.array) if m < 3 else (np.array,)):
                arg = cs if form is cs else form(cs)
                if form is np.array and m == 2:
                    arg = arg.reshape(2, 1)
                snap = gen.snapshot(arg)
                kw = dict(ref_center=ref, shape=shape, dx=dx, xmax=xmax)
                if w is not None or m == 2:
                    kw['width'] = w
                rec.step()
                plant, x = sp.get_1d_plant(arg, **kw)
                rec.close(x, axis, f'axis {case}', rtol=1e-9, atol=1e-9)
                rec.true(gen.snapshot(arg) == snap, 'centers are unchanged')
                want = np.zeros(len(axis))
                for c in cs:
                    for k, a in enumerate(axis):
                        d = a - (c - ref)
                        if shape.lower() == 'square':
                            if -width / 2 <= d < width / 2:
                                want[k] = 1
                        else:
                            want[k] += math.exp(-d * d / 2 /
                                                (width / 2.355) ** 2)
                rec.close(plant, want, f'density {cs} {case}', rtol=1e-9)
                rec.outcome((cs, ref, w))


def run_filter(case, rec):
    """Any density on any axis."""
    from solarspatialtools import signalproc as sp
    dx, n = case['dx'], case['n']
    x = case['x0'] + np.arange(n) * dx
    for dens in itertools.product((0, 1), repeat=n):
        if not sum(dens):
            continue
        d = np.array(dens, float) * (1 + np.arange(n) % 3)
        if case['int']:
            d = np.array(dens)
        for v in case['speeds']:
            snap = gen.snapshot([d, x])
            rec.step()
            got = sp.plant1d_to_camfilter(d, x, v)
            rec.true(gen.snapshot([d, x]) == snap, 'arguments unchanged')
            check(rec, got, n, dx, v, lambda f: site_sum(f, x, v, d),
                  f'{dens} speed {v} {case}')
            # scaling the density changes nothing
            if sum(dens) == 2:
                rec.step()
                g2 = sp.plant1d_to_camfilter(d * 7.5, x, v)
                rec.close(g2.values, got.values, f'scaled density {case}')
        rec.outcome(dens)


def run_sites(case, rec):
    """Sites in the plane: whole metres along the motion."""
    from solarspatialtools import signalproc as sp
    L = case['layout']
    names = gen.labels(case['labels'], len(L))
    xy = np.array(L, float)
    dx, xmax = case['dx'], case['xmax']
    n = len(np.arange(-xmax // 2, xmax // 2, dx))
    for (ux, uy), ri, v in itertools.product(case['dirs'], case['refs'],
                                             case['speeds']):
        h = math.hypot(ux, uy)
        along = (xy - xy[ri]) @ [ux / h, uy / h]
        cells = np.round(along / dx) * dx
        if np.abs(cells - along).max() > 1e-6 or \
                len(set(np.round(cells / dx).astype(int))) < len(cells):
            raise ValueError(f'not whole cells {along}')
        cells_of = set(np.round(cells, 6))
        base = None
        for vi, (t, perm, scale, cols, cont) in enumerate(case['variants']):
            o = list(range(len(L)))
            o = o[::-1] if perm == 1 else o[1::2] + o[::2] if perm == 2 else o
            P = pd.DataFrame({'E': xy[o, 0] + t[0], 'N': xy[o, 1] + t[1]},
                             index=[names[k] for k in o])
            if cols == 'swap':
                P = P[['N', 'E']]
            elif cols == 'zone':
                P['zone'] = '18N'
            ref = P.loc[names[ri]]
            if cols == 'outside':       # the reference is not in the table
                ref = pd.Series({'E': xy[ri, 0] + t[0],
                                 'N': xy[ri, 1] + t[1]})
            dr = (ux * scale, uy * scale)
            dr = [dr, list(dr), np.array(dr)][cont]
            snap = gen.snapshot([P, ref, dr])
            rec.step()
            got = sp.get_camfilter(P, v, dr, ref, dx=dx, xmax=xmax)
            rec.true(gen.snapshot([P, ref, dr]) == snap,
                     'arguments unchanged')
            what = f'direction {dr} ref {names[ri]} speed {v} variant {vi} ' \
                   f'{case["layout"]} dx {dx} xmax {xmax}'
            check(rec, got, n, dx, v,
                  lambda f: site_sum(f, sorted(cells_of), v), what, 1e-8)
            if base is None:
                base = got
            else:
                rec.close(got.values, base.values, 'same as before ' + what,
                          atol=1e-8)
        # the motion reversed
        for g in (sp.get_camfilter(P, -v, dr, ref, dx=dx, xmax=xmax),
                  sp.get_camfilter(P, v, (-ux, -uy), ref, dx=dx, xmax=xmax)):
            rec.step()
            rec.close(g.values, np.conj(base.values), 'reversed ' + what,
                      atol=1e-8)
        rec.outcome((ux, uy, ri, v))


def run_signal(case, rec):
    """The filter applied to a signal: the sites' mean, seen later."""
    from solarspatialtools import signalproc as sp
    n, dt = 40, 1.
    x = gen.hash01(n, 4)
    ix = gen.tindex(n, dt)
    v = case['v']
    for delays in itertools.combinations(range(-3, 4), case['m']):
        P = pd.DataFrame({'E': [d * v * dt for d in delays], 'N': 0.},
                         index=gen.labels('str', len(delays)))
        ref = pd.Series({'E': 0., 'N': 0.})
        rec.step()
        # one period of the plant's axis is that of the signal
        f = sp.get_camfilter(P, v, (1, 0), ref, dx=v * dt / case['sub'],
                             xmax=n * v * dt)
        y = sp.apply_filter(pd.Series(x, index=ix), f)
        want = np.mean([np.roll(x, d) for d in delays], axis=0)
        rec.close(y.values, want, f'delays {delays} {case}', rtol=1e-7,
                  atol=1e-8)
        rec.outcome(delays)


def run_latlon(case, rec):
    """Latitude and longitude or projected coordinates."""
    from solarspatialtools import signalproc as sp, spatial
    lat, lon = case['at']
    off = [(0, 0), (.0004, .0003), (-.0006, .0008), (.0002, -.0009)]
    names = gen.labels('cmb', 4)
    G = pd.DataFrame({'lat': [lat + a for a, _ in off],
                      'lon': [lon + b for _, b in off]}, index=names)
    U = pd.DataFrame([spatial.latlon2utm(a, b)[:2] for a, b in G.values],
                     index=names, columns=['E', 'N']).astype(float)
    kw = dict(xmax=2000, dx=2, width=60, shape='gaussian')
    for d, r, v, (pg, rg) in itertools.product(
            ((1, 0), (0, 1), (1, -1), (-2, -.5)), names, (4., 20.),
            ((1, 1), (1, 0), (0, 1))):
        P, R = (G if pg else U), (G if rg else U).loc[r]
        if case['extra']:
            P = P.assign(tilt=5.)
        rec.step(2)
        want = sp.get_camfilter(U, v, d, U.loc[r], **kw)
        got = sp.get_camfilter(P, v, d, R, **kw)
        rec.close(got.index, want.index, 'frequencies')
        rec.close(got.values, want.values, f'lat/lon {d} {r} {v} {pg} {rg} '
                  f'{case}', atol=1e-6, rtol=1e-6)
        h = math.hypot(*d)
        x = (U - U.loc[r]).values @ [d[0] / h, d[1] / h]
        f = np.asarray(want.index)
        g = np.exp(-2 * (math.pi * f / v * 60 / 2.355) ** 2)
        rec.close(got.values, site_sum(f, x, v) * g, f'delays {d} {r} {v} '
                  f'{case}', atol=1e-6)
        rec.outcome((d, str(r), v))


def run_border(case, rec):
    """Sites on both sides of a zone border or of the equator."""
    from solarspatialtools import signalproc as sp, spatial
    lat, lon = case['at']
    off = [(0, 0), (.0004, .0003), (-.0006, .0008), (.0002, -.0009)]
    names = gen.labels('cmb', 4)
    G = pd.DataFrame({'lat': [lat + a for a, _ in off],
                      'lon': [lon + b for _, b in off]}, index=names)
    kw = dict(xmax=2000, dx=2, width=60, shape='gaussian')
    for r in names:
        # metres east and north of the reference, in the zone of that
        xy = np.array([spatial.latlon2lcs(a, b, *G.loc[r])
                       for a, b in G.values])
        rec.true(np.abs(xy).max() < 300, f'offsets {xy}')
        for d, v in itertools.product(((1, 0), (0, 1), (1, -1), (-2, -.5)),
                                      (4., 20., -7.)):
            rec.step()
            got = sp.get_camfilter(G, v, d, G.loc[r], **kw)
            h = math.hypot(*d)
            f = np.asarray(got.index)
            g = np.exp(-2 * (math.pi * f / v * 60 / 2.355) ** 2)
            rec.close(got.values,
                      site_sum(f, xy @ [d[0] / h, d[1] / h], v) * g,
                      f'delays {d} {r} {v} {case}', atol=1e-6)
            rec.outcome((d, str(r), v))


def run_marcos(case, rec):
    from solarspatialtools import signalproc as sp
    freqs = {'none': None, 'array': np.array([0, .001, .01, .5, -.2]),
             'index': pd.Index([.3, 0., -.1]),
             'fft': np.fft.fftfreq(11, 2.)}
    for k, f in freqs.items():
        rec.step()
        got = sp.get_marcosfilter(case['s']) if f is None else \
            sp.get_marcosfilter(case['s'], f)
        rec.true(isinstance(got, pd.Series), f'{type(got)}')
        fi = np.asarray(got.index, float)
        if f is not None:
            rec.close(fi, np.asarray(f, float), f'frequencies {k}')
        else:
            rec.true(fi.min() == 0 and len(fi) > 10, f'frequencies {fi}')
        fc = .02 / math.sqrt(case['s'])
        rec.close(got.values, 1 / (1 + 1j * fi / fc), f'{k} {case}',
                  rtol=1e-5, atol=1e-7)
        rec.close(got.values[fi == 0], np.ones((fi == 0).sum()), 'unit gain')
    rec.step()
    g = sp.get_marcosfilter(case['s'], np.array([fc]))
    rec.close(abs(g.values[0]), math.sqrt(.5), f'cutoff {case}', rtol=1e-5)
    rec.outcome(case['s'])


def spaces(tier):
    deep = tier == 'thorough'
    plant = [dict(dx=dx, xmax=xm, width=w, ref=r, shape=s,
                  pool=[k * dx for k in (-3, 0, 1, 4)] if w is None or
                  s[0] == 's' else [-3.3, 0, 2, 4.7])
             for dx, xm in ((1, 20), (1, 21), (2, 40), (.5, 16))
             for w in (None, 3 * dx, 5 * dx) for r in (0, 2 * dx, -3. * dx)
             for s in ('square', 'Gaussian') if s == 'square' or w]
    # sites that end at the middle of a cell: one end belongs to the site
    plant += [dict(dx=dx, xmax=xm, width=w, ref=r, shape='square',
                   pool=[k * dx for k in p])
              for dx, xm in ((1, 20), (2, 40), (.5, 16))
              for r in (0, 2 * dx)
              for w, p in ((None, (-3.5, .5, 4.5)), (2 * dx, (-3, 0, 4)),
                           (4 * dx, (-2, 1.25, 5)), (3 * dx, (-2.5, 1, 3.5)))]
    filt = [dict(dx=dx, n=n, x0=x0, int=i, speeds=[1., 10, -4., 2.5])
            for n in range(2, 8 if not deep else 11)
            for dx in (1., .5, 7.)
            for x0 in (0., -n // 2 * dx, 13., -20.5) for i in (0, 1)]
    V = [((0, 0), 0, 1, None, 0), ((100., -30), 1, 3, None, 1),
         ((5e5, 4.5e6), 2, .2, 'zone', 2), ((-7, 7), 0, 11, 'swap', 2),
         ((0, 0), 1, 1, 'outside', 0)]
    axis = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    sites = []
    for lay, dirs in (([(0, 0), (3, 11), (-7, 4), (10, -5)], axis),
                      ([(0, 0)], axis + [(1, 1), (-3, 4)]),
                      ([(0, 0), (30, 40), (-6, -8), (15, 20)],
                       [(3, 4), (-3, -4)]),
                      ([(0, 0), (7, 1), (-8, 6), (4, 3), (20, -40)],
                       [(3, 4), (-4, 3), (4, -3), (-3, -4)])):
        if len(lay) == 5:
            # multiples of five along (3, 4)/5 and (4, -3)/5
            lay = [(0, 0), (25, 0), (0, 50), (-50, 25), (75, 75)]
            dirs = dirs[:2]
        for lb, (dx, xm) in itertools.product(('str', 'int'),
                                              ((1, 400), (1, 301), (.5, 350))):
            refs = list(range(min(3, len(lay))))
            sites.append(dict(layout=lay, dirs=dirs, refs=refs, labels=lb,
                              dx=dx, xmax=xm, variants=V,
                              speeds=[1., 7.5, 20] if deep else [7.5, 20]))
    big = [(2 * k - 80, 2 * (k * 37 % 80) - 79) for k in range(80)]
    sites += [dict(layout=big, dirs=axis, refs=[0, 41], labels=lb, dx=1,
                   xmax=xm, variants=V[:2] + V[3:4], speeds=[7.5])
              for lb, xm in (('cmb', 400), ('int', 5001))]
    sig = [dict(v=v, m=m, sub=s) for v in (1, 5, 10.) for m in (1, 2, 3)
           for s in (1, 2, 4)]
    ll = [dict(at=a, extra=e) for a in ((40.5, -76.3), (-33.2, 151.), (5., 5.),
                                        (61.2, 10.4)) for e in (False, True)]
    border = [dict(at=a) for a in ((50., 6.), (-20., -66.), (0., 9.), (0., 12.),
                                   (60., 23.9998), (-.0003, 100.))]
    marcos = [dict(s=s) for s in (1, 10, .25, 4., 100, 123.4)]
    return [
        Space('plant', plant, run_plant, 'up to three of four centers, '
              'axes, widths, references'),
        Space('filter', filt, run_filter, 'all occupations of axes of 2..7 '
              '(10) cells'),
        Space('sites', sites, run_sites, 'layouts, directions, references'),
        Space('signal', sig, run_signal, 'all sets of up to three delays'),
        Space('latlon', ll, run_latlon, 'both hemispheres'),
        Space('border', border, run_border, 'plants across zone borders and '
              'the equator'),
        Space('marcos', marcos, run_marcos, 'sizes'),
    ]
