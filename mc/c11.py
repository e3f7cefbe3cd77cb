"""C11: coordinates, against an independent series for the projection."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C11'
ASSUME = [
    'zones follow the plain 6 degree rule (as documented)',
    'latitudes within 84 degrees, requested zones at most two zones away',
    'reference: Krueger series of order 6, good to well below 1e-4 m there',
    'local systems have one origin (scalars)',
]

A, F = 6378137.0, 1 / 298.257223563
NN = F / (2 - F)


def krueger(lat, lon, lon0, k0=0.9996):
    """Transverse Mercator, (east, north) without false origins."""
    n = NN
    al = (n / 2 - 2 * n**2 / 3 + 5 * n**3 / 16 + 41 * n**4 / 180
          - 127 * n**5 / 288,
          13 * n**2 / 48 - 3 * n**3 / 5 + 557 * n**4 / 1440 + 281 * n**5 / 630,
          61 * n**3 / 240 - 103 * n**4 / 140 + 15061 * n**5 / 26880,
          49561 * n**4 / 161280 - 179 * n**5 / 168, 34729 * n**5 / 80640)
    r = A / (1 + n) * (1 + n**2 / 4 + n**4 / 64 + n**6 / 256)
    p, l = math.radians(lat), math.radians(lon - lon0)
    e = math.sqrt(F * (2 - F))
    t = math.sinh(math.atanh(math.sin(p)) - e * math.atanh(e * math.sin(p)))
    xi = math.atan2(t, math.cos(l))
    eta = math.asinh(math.sin(l) / math.hypot(t, math.cos(l)))
    E = eta + sum(a * math.cos(2 * j * xi) * math.sinh(2 * j * eta)
                  for j, a in enumerate(al, 1))
    N = xi + sum(a * math.sin(2 * j * xi) * math.cosh(2 * j * eta)
                 for j, a in enumerate(al, 1))
    return k0 * r * E, k0 * r * N


def zone_of(lon):
    return min(int(math.floor((lon + 180) / 6)) + 1, 60)


def utm(lat, lon, zone=None, false=True):
    z = zone_of(lon) if zone is None else zone
    E, N = krueger(lat, lon, 6 * z - 183)
    return E + 5e5, N + (1e7 if lat < 0 and false else 0), z


LATS = [-80., -66.5, -45.123456, -10., -1e-6, 0., 1e-6, 0.5, 33.9, 50.897,
        60., 79.9, 83.5]
LONS = [-180., -179.5, -177., -174.0001, -174., -158.0, -120.5, -84., -66.0001,
        -3., -1e-6, 0., 1e-6, 5.9999, 6., 6.4, 9., 114., 137.7, 174., 179.9999,
        180.]


def run_scalar(case, rec):
    """Forward and back, own zone and neighbours."""
    from solarspatialtools import spatial as sp
    lon = case['lon']
    own = zone_of(lon)
    rec.step()
    rec.same(int(sp._calc_zone(lon)), own, f'zone of {lon}')
    zones = [None] + [z for z in (own - 1, own, own + 1)
                      if 1 <= z <= 60 and not (abs(lon) > 179 and z != own)]
    for lat in LATS:
        for z in zones:
            for mk in ((float, np.float64) if z is None else (float,)):
                rec.step()
                a, b = mk(lat), mk(lon)
                E, N, zz = sp.latlon2utm(a, b) if z is None else \
                    sp.latlon2utm(a, b, z)
                w = utm(lat, lon, z)
                rec.close([E, N], w[:2], f'UTM of {lat} {lon} zone {z}',
                          rtol=0, atol=1e-4)
                rec.same(int(zz), w[2], f'zone reported for {lon}')
            rec.step()
            back = sp.utm2latlon(E, N, zz, south=lat < 0)
            rec.close([back[0]], [lat], f'latitude back {lat} {lon} {z}', rtol=0,
                      atol=1e-9)
            d = (back[1] - lon + 180) % 360 - 180
            rec.close(d, 0.0, f'longitude back {lat} {lon} {z}', rtol=0,
                      atol=1e-8)
            rec.outcome((round(E, 2), round(N, 2), int(zz)))


def run_zones(case, rec):
    """The zone rule on a fine grid."""
    from solarspatialtools import spatial as sp
    k = case['k']
    for i in range(-180 * k, 180 * k + 1):
        lon = i / k
        rec.step()
        rec.same(int(sp._calc_zone(lon)), zone_of(lon), f'zone of {lon}')
        rec.outcome(zone_of(lon))


FORMS = {
    'list': list, 'tuple': tuple, 'array': np.array,
    'series': lambda v: pd.Series(v, index=gen.labels('str', len(v))),
    'int': lambda v: pd.Series(v, index=gen.labels('int', len(v)), name='x'),
}


def run_many(case, rec):
    """Containers give the per-point results in order with the labels."""
    from solarspatialtools import spatial as sp
    mk = FORMS[case['form']]
    pts = [(50.897, 6.41), (-33.4, -66.0001), (0., 180.), (61.2, 5.9999),
           (-1e-6, 6.)]
    n = case['n']
    z = case['zone']
    for sub in itertools.permutations(range(len(pts)), n):
        if z is not None:
            sub = [i for i in sub if abs(pts[i][1] - (6 * z - 183)) < 12]
            if not sub:
                continue
        lat, lon = mk([pts[i][0] for i in sub]), mk([pts[i][1] for i in sub])
        snap = gen.snapshot([lat, lon])
        rec.step()
        got = sp.latlon2utm(lat, lon) if z is None else \
            sp.latlon2utm(lat, lon, zone=z)
        want = np.array([utm(*pts[i], z) for i in sub])
        if isinstance(lat, pd.Series):
            rec.frame(got, lat.index, ['E', 'N', 'zone'], 'UTM')
        else:
            rec.same(np.shape(got), (len(sub), 3), 'shape')
        rec.close(np.asarray(got, dtype=float), want, f'{case} {sub}', rtol=0,
                  atol=1e-4)
        rec.same(gen.snapshot([lat, lon]), snap, 'the arguments')
        rec.outcome(sub)
        # and back, hemisphere by hemisphere (one zone for all)
        zz = 32 if z is None else z
        for south in (False, True):
            back = [i for i in sub if (pts[i][0] < 0) == south
                    and abs(pts[i][1] - (6 * zz - 183)) < 12]
            if not back:
                continue
            w = [utm(*pts[i], zz) for i in back]
            e, nn = mk([v[0] for v in w]), mk([v[1] for v in w])
            rec.step()
            ll = sp.utm2latlon(e, nn, zz, south) if south else \
                sp.utm2latlon(e, nn, zz)
            if isinstance(e, pd.Series):
                rec.frame(ll, e.index, ['lat', 'lon'], 'lat/lon')
            rec.close(np.asarray(ll), [pts[i] for i in back], f'back {back}',
                      rtol=0, atol=1e-8)
    rec.step(2)
    rec.raises(ValueError, lambda: sp.latlon2utm(mk([1., 2.]), mk([3.])),
               'different lengths')
    rec.raises(ValueError, lambda: sp.utm2latlon(mk([1., 2.]), mk([3.]), 32),
               'different lengths')


def run_large(case, rec):
    """Hundreds of points at once: each as it is alone."""
    from solarspatialtools import spatial as sp
    n, mk = case['n'], FORMS[case['form']]
    lat = np.round(gen.hash01(n, 1) * 160 - 80, 4)
    lon = np.round(gen.hash01(n, 2) * 359.9 - 180, 4)
    want = np.array([utm(a, b) for a, b in zip(lat, lon)])
    rec.step()
    got = sp.latlon2utm(mk(list(lat)), mk(list(lon)))
    rec.close(np.asarray(got, dtype=float), want, f'{case}', rtol=0,
              atol=1e-4)
    rec.outcome(n)
    # neighbours in one zone
    lat, lon = np.round(10 + lat / 80, 5), np.round(9 + lon / 100, 5)
    want = np.array([utm(a, b, 32) for a, b in zip(lat, lon)])
    rec.step(2)
    got = sp.latlon2utm(mk(list(lat)), mk(list(lon)), 32)
    rec.close(np.asarray(got, dtype=float), want, f'zone 32 {case}', rtol=0,
              atol=1e-4)
    ll = sp.utm2latlon(mk(list(want[:, 0])), mk(list(want[:, 1])), 32)
    rec.close(np.asarray(ll), np.array([lat, lon]).T, f'back {case}', rtol=0,
              atol=1e-8)
    rec.step()
    e, nn = sp.latlon2lcs(mk(list(lat)), mk(list(lon)), 10., 9.)
    E0, N0, _ = utm(10., 9., 32)
    rec.close(np.array([e, nn]).T.astype(float), want[:, :2] - [E0, N0],
              f'local {case}', rtol=0, atol=2e-4)
    if case['form'] != 'list':
        rec.step()
        la, lo = sp.lcs2latlon(e, nn, 10., 9.)
        rec.close(np.array([la, lo]), np.array([lat, lon]),
                  f'local back {case}', rtol=0, atol=1e-8)


ORIGINS = [(50.9, 6.41), (50.9, 5.9999), (-0.0003, 6.0001), (0.0003, 5.9995),
           (0., 12.), (-33.4, -66.), (60., 179.995)]


def run_lcs(case, rec):
    """One local system: zone of the origin, continuous, invertible."""
    from solarspatialtools import spatial as sp
    olat, olon = case['origin']
    z = case['zone']
    zz = zone_of(olon) if z is None else zone_of(olon) + z
    if not 1 <= zz <= 60:
        return
    kw = {} if z is None else {'zone': zz}
    E0, N0, _ = utm(olat, olon, zz, false=False)
    rec.step()
    o = sp.latlon2lcs(olat, olon, olat, olon, **kw)
    rec.close(np.array(o, dtype=float), [0., 0.], 'the origin', atol=1e-6)
    steps = [-0.05, -0.001, 0.0, 0.0004, 0.02]
    pts = [(olat + a, olon + b) for a in steps for b in steps]
    pts = [(a, b - 360 if b > 180 else b) for a, b in pts]
    want = []
    for la, lo in pts:
        e, n, _ = utm(la, lo, zz, false=False)
        want.append((e - E0, n - N0))
    want = np.array(want)
    for (la, lo), w in zip(pts, want):
        rec.step(2)
        got = sp.latlon2lcs(la, lo, olat, olon, **kw)
        rec.close(np.array(got, dtype=float), w, f'local {la} {lo}', rtol=0,
                  atol=2e-4)
        back = sp.lcs2latlon(got[0], got[1], olat, olon, **kw)
        rec.close(back[0], la, f'back {la} {lo}', rtol=0, atol=1e-8)
        rec.close((back[1] - lo + 180) % 360, 180., f'back {la} {lo}', rtol=0,
                  atol=1e-8)
        rec.outcome((round(float(got[0]), 2), round(float(got[1]), 2)))
    for form in ('list', 'array', 'series', 'int'):
        mk = FORMS[form]
        for sub in ([3], [7, 0], list(range(len(pts)))[:11][::-1]):
            lat, lon = mk([pts[i][0] for i in sub]), mk([pts[i][1] for i in sub])
            snap = gen.snapshot([lat, lon])
            rec.step()
            e, n = sp.latlon2lcs(lat, lon, olat, olon, **kw)
            rec.close(np.asarray(e), want[sub, 0], f'{form} east', rtol=0,
                      atol=2e-4)
            rec.close(np.asarray(n), want[sub, 1], f'{form} north', rtol=0,
                      atol=2e-4)
            if isinstance(lat, pd.Series):
                rec.same(list(e.index), list(lat.index), 'east index')
                rec.same(list(n.index), list(lat.index), 'north index')
            rec.same(gen.snapshot([lat, lon]), snap, 'the arguments')
            if form != 'list':
                rec.step()
                la, lo = sp.lcs2latlon(e, n, olat, olon, **kw)
                rec.close(np.asarray(la), [pts[i][0] for i in sub],
                          f'{form} latitudes', rtol=0, atol=1e-8)
                rec.close((np.asarray(lo) - [pts[i][1] for i in sub] + 180)
                          % 360, np.full(len(sub), 180.),
                          f'{form} longitudes', rtol=0, atol=1e-8)
                if isinstance(lat, pd.Series):
                    rec.same(list(la.index), list(lat.index), 'lat index')


def run_flat(case, rec):
    """Flat earth: metres east and north of the reference."""
    from solarspatialtools import spatial as sp
    la0, lo0 = case['ref']
    e2 = F * (2 - F)
    s2 = math.sin(math.radians(la0)) ** 2
    rn = A / math.sqrt(1 - e2 * s2)
    rm = A * (1 - e2) / (1 - e2 * s2) ** 1.5
    d = [-0.01, -0.0005, 0.0, 0.0001, 0.01]
    pts = [(la0 + a, lo0 + b) for a in d for b in d]
    got = {}
    for form in ('array', 'scalar', 'series'):
        lat, lon = [p[0] for p in pts], [p[1] for p in pts]
        if form == 'scalar':
            lat, lon = lat[case['k']], lon[case['k']]
        else:
            lat, lon = FORMS[form](lat), FORMS[form](lon)
        snap = gen.snapshot([lat, lon])
        for method in (None, 'matlab', 'tmerc'):
            rec.step()
            E, N = sp.lla2flat(lat, lon, la0, lo0) if method is None else \
                sp.lla2flat(lat, lon, la0, lo0, method=method)
            use = pts if form != 'scalar' else [pts[case['k']]]
            if method == 'tmerc':
                w = [krueger(a, b, lo0, 1.0) for a, b in use]
                n0 = krueger(la0, lo0, lo0, 1.0)[1]
                w = np.array([(e, n - n0) for e, n in w])
            else:
                w = np.array([(rn * math.cos(math.radians(la0)) *
                               math.radians(b - lo0),
                               rm * math.radians(a - la0)) for a, b in use])
            rec.close(np.ravel(np.asarray(E)), w[:, 0], f'east {method} {form}',
                      rtol=1e-9, atol=1e-4)
            rec.close(np.ravel(np.asarray(N)), w[:, 1], f'north {method} {form}',
                      rtol=1e-9, atol=1e-4)
            got[method] = w
            rec.outcome((method, form, la0, lo0))
        rec.same(gen.snapshot([lat, lon]), snap, 'the arguments')
        # the two agree for nearby points, to second order in the distance
        r = np.hypot(*got['tmerc'].T)
        rec.true(np.all(np.abs(got['matlab'] - got['tmerc']) <=
                        (1e-3 + r**2 / A * (1 + abs(math.tan(
                            math.radians(la0)))))[:, None]),
                 'flat and projected distances')
    rec.step()
    rec.raises(ValueError, lambda: sp.lla2flat(la0, lo0, la0, lo0, method='flat'),
               'unknown method')


def spaces(tier):
    deep = tier == 'thorough'
    global LATS, LONS
    lons = LONS + ([-180 + 2.5 * k for k in range(145)
                    if -180 + 2.5 * k not in LONS] if deep else [])
    many = [dict(form=f, n=n, zone=z) for f in FORMS
            for n in ((1, 2, 3, 4) if deep else (1, 2, 3))
            for z in (None, 31, 32)]
    lcs = [dict(origin=list(o), zone=z) for o in ORIGINS
           for z in (None, 0, 1, -1)]
    flat = [dict(ref=[la, lo], k=k) for la in (-60., -33.5, 0., 10., 50.9, 75.)
            for lo in (-180., -66., 0., 6., 137.) for k in
            ((0, 4, 7, 12, 23) if deep else (1, 23))]
    return [
        Space('scalar', [dict(lon=l) for l in lons], run_scalar,
              'grid of latitudes x longitudes incl. all kinds of borders'),
        Space('zones', [dict(k=k) for k in ((1, 8, 64) if deep else (1, 8))],
              run_zones, 'all multiples of 1/8 (1/64) degree'),
        Space('many', many, run_many, 'all orders of subsets of five points'),
        Space('large', [dict(form=f, n=n) for f in FORMS for n in (60, 400)],
              run_large, 'hundreds of points'),
        Space('lcs', lcs, run_lcs, 'origins at zone borders and the equator x '
              'neighbourhood grid x requested zones'),
        Space('flat', flat, run_flat, 'references x neighbourhood grid'),
    ]
