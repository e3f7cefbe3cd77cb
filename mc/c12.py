"""C12: planar vector operations on grids of vectors, angles and containers."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C12'
ASSUME = [
    'unit vectors, projections and intersections need nonzero vectors, '
    'intersections non-parallel ones',
    'the helpers dot, unit, magnitude take positional pairs (tuple, list, '
    'array); labelled tables are for project_vectors and compute_vectors',
]

EPS = dict(rtol=1e-12, atol=1e-12)


def vectors(scale, r=2):
    g = [(x * scale, y * scale) for x in range(-r, r + 1)
         for y in range(-r, r + 1)]
    return g + [(3.5 * scale, -1.25 * scale), (-1e-3 * scale, 7 * scale)]


PAIRS = {
    'tuple': tuple, 'list': list, 'array': np.array,
    'int': lambda v: (int(round(v[0])), int(round(v[1]))),
    'series': lambda v: pd.Series(v),
}


def angle(v, w):
    """Angle from v to w in (-pi, pi], by complex numbers."""
    z = complex(*w) / complex(*v)
    return math.atan2(z.imag, z.real)


def run_pairs(case, rec):
    """dot, magnitude, unit, rect2pol/pol2rect of all vectors."""
    from solarspatialtools import spatial as sp
    mk = PAIRS[case['form']]
    V = vectors(case['scale'])
    if case['form'] == 'int':
        V = [v for v in V if all(float(c).is_integer() for c in v)]
    for v in V:
        a = mk(v)
        snap = gen.snapshot(a)
        rec.step(2)
        m = sp.magnitude(a)
        rec.close(m, math.hypot(*v), f'magnitude {v}', **EPS)
        rec.same(np.ndim(m), 0, 'magnitude is one number')
        r, th = sp.rect2pol(v[0], v[1])
        rec.close(r, math.hypot(*v), f'radius {v}', **EPS)
        rec.close(th, math.atan2(v[1], v[0]), f'angle {v}', **EPS)
        rec.step()
        rec.close(np.array(sp.pol2rect(r, th)), v, f'polar round trip {v}',
                  rtol=1e-12, atol=1e-12 * case['scale'])
        if v != (0, 0):
            rec.step()
            u = sp.unit(a)
            rec.close(np.asarray(u), np.array(v) / math.hypot(*v),
                      f'unit {v}', **EPS)
        for w in V:
            b = mk(w)
            rec.step()
            d = sp.dot(a, b)
            rec.close(d, v[0] * w[0] + v[1] * w[1], f'dot {v} {w}',
                      rtol=1e-12, atol=1e-12 * case['scale'] ** 2)
            if v != (0, 0) and w != (0, 0):
                rec.close(d, math.hypot(*v) * math.hypot(*w) *
                          math.cos(angle(v, w)), f'dot and angle {v} {w}',
                          rtol=1e-12, atol=1e-11 * case['scale'] ** 2)
            rec.outcome(round(float(d) / case['scale'] ** 2, 6))
        rec.same(gen.snapshot(a), snap, 'the argument')


def run_polar(case, rec):
    """All angles on a grid, several turns, arrays."""
    from solarspatialtools import spatial as sp
    k = case['steps']
    ths = [2 * math.pi * i / k for i in range(-2 * k, 2 * k + 1)]
    for r in (0.0, 1e-7, 1e-3, 1.0, 12.5, 4e5):
        for th in ths:
            rec.step(2)
            x, y = sp.pol2rect(r, th)
            rec.close([x, y], [r * math.cos(th), r * math.sin(th)],
                      f'pol2rect {r} {th}', rtol=1e-12, atol=1e-12 * (r + 1e-9))
            rr, tt = sp.rect2pol(x, y)
            rec.close(rr, r, f'radius {r} {th}', rtol=1e-12, atol=1e-12 * r)
            rec.true(-math.pi - 1e-12 <= tt <= math.pi + 1e-12, 'angle range')
            if r:
                rec.close(abs(np.exp(1j * tt) - np.exp(1j * th)), 0.0,
                          f'angle {r} {th}', atol=1e-9)
            rec.outcome(round(float(tt), 6))
        rec.step(2)
        xa, ya = sp.pol2rect(np.full(len(ths), r), np.array(ths))
        rec.close(xa, [r * math.cos(t) for t in ths], 'array x', rtol=1e-12,
                  atol=1e-12 * (r + 1e-9))
        ra, ta = sp.rect2pol(xa, ya)
        rec.close(ra, np.full(len(ths), r), 'array r', rtol=1e-12, atol=1e-12)
        xs, ys = pd.Series(xa, index=range(5, 5 + len(ths))), None
        ys = pd.Series(ya, index=xs.index)
        rec.step()
        rs, ts = sp.rect2pol(xs, ys)
        rec.close(np.asarray(ts), ta, 'series angles', rtol=1e-12, atol=1e-12)
    # the axes exactly
    for (x, y), want in {(1, 0): 0, (0, 1): math.pi / 2, (-1, 0): math.pi,
                         (0, -1): -math.pi / 2}.items():
        for f in (int, float):
            rec.step()
            rec.close(sp.rect2pol(f(x), f(y))[1], want, f'axis {(x, y)}', **EPS)


def run_rotate(case, rec):
    from solarspatialtools import spatial as sp
    k = case['steps']
    V = vectors(case['scale'])
    ths = [2 * math.pi * i / k for i in range(-k, k + 1)]
    A = np.array(V)
    s = case['scale']
    for th in ths:
        want = np.array([complex(*v) * complex(math.cos(th), math.sin(th))
                         for v in V])
        W = np.array([want.real, want.imag])
        rec.step(4)
        got = sp.rotate_vector(A.T, th)
        rec.true(isinstance(got, np.ndarray), 'array in, array out')
        rec.close(got, W, f'rotation by {th}', rtol=1e-12, atol=1e-12 * s)
        tup = sp.rotate_vector((tuple(A[:, 0]), tuple(A[:, 1])), th)
        rec.true(isinstance(tup, tuple), 'tuple in, tuple out')
        rec.close(np.array(tup), W, f'tuples, {th}', rtol=1e-12, atol=1e-12 * s)
        lst = sp.rotate_vector([list(A[:, 0]), list(A[:, 1])], th)
        rec.close(np.array(lst), W, f'lists, {th}', rtol=1e-12, atol=1e-12 * s)
        back = sp.rotate_vector(got, -th)
        rec.close(back, A.T, f'back from {th}', rtol=1e-12, atol=1e-12 * s)
        for i in range(0, len(V), 3):
            rec.step(2)
            for form in (tuple, list, np.array):
                one = sp.rotate_vector(form(V[i]), th)
                rec.close(np.array(one), W[:, i], f'{V[i]} by {th}', rtol=1e-12,
                          atol=1e-12 * s)
            if V[i] != (0, 0):
                rec.close(sp.magnitude(one), math.hypot(*V[i]), 'length',
                          rtol=1e-12)
                d = angle(V[i], one) - th
                rec.close(abs(np.exp(1j * d) - 1), 0.0,
                          f'counter-clockwise {V[i]} by {th}', atol=1e-9)
        for t2 in ths[::max(1, k // 6)]:
            rec.step()
            rec.close(sp.rotate_vector(got, t2), sp.rotate_vector(A.T, th + t2),
                      f'{th} then {t2}', rtol=1e-11, atol=1e-11 * s)
        rec.outcome(round(th, 6))
    # integer input must not be truncated
    rec.step()
    q = sp.rotate_vector(np.array([3, 4]), 0.3)
    z = complex(3, 4) * complex(math.cos(.3), math.sin(.3))
    rec.close(q, [z.real, z.imag], 'integers', **EPS)


def coords(form, pts, lab):
    x = [p[0] for p in pts]
    y = [p[1] for p in pts]
    if form == 'list':
        return x, y
    if form == 'tuple':
        return tuple(x), tuple(y)
    if form == 'array':
        return np.array(x), np.array(y)
    ix = gen.labels(lab, len(pts))
    if form == 'series':
        return pd.Series(x, index=ix), pd.Series(y, index=ix)
    df = pd.DataFrame({'N': y, 'zone': 32., 'E': x}, index=ix)
    return df['E'], df['N']


REFS = {'tuple': lambda p: tuple(p), 'list': lambda p: list(p),
        'array': lambda p: np.array(p),
        'utm': lambda p: (p[0], p[1], 32),
        'row': lambda p: pd.Series([p[0], p[1], 32.], index=['E', 'N', 'zone'])}


def run_sites(case, rec):
    """compute_vectors and project_vectors for all plants of a point menu."""
    from solarspatialtools import spatial as sp
    menu = [(0., 0.), (3., -4.), (-250.5, 80.), (4e5, 5e6), (4e5, -1.)]
    n = case['n']
    if case['int']:
        menu = [(0, 0), (3, -4), (-250, 80), (400000, 5000000), (-1, 7)]
        refs = [(0.5, -0.25), (3.75, -4.), (400000, 5000000)]
    else:
        refs = [menu[0], menu[1], menu[3]]
    dirs = [(1, 0), (0, -2.), (-3., 4.), (1e-3, 1e-3), (-7., -2.),
            (3e-9, -4e-9), (2e11, 1e11)]
    for pts in itertools.product(menu, repeat=n):
        for ref in refs:
            x, y = coords(case['form'], pts, case['labels'])
            r = REFS[case['ref']](ref)
            sx, sr = gen.snapshot([x, y]), gen.snapshot(r)
            rec.step()
            v = sp.compute_vectors(x, y, r)
            want = np.array(pts) - np.array(ref)
            if case['form'] in ('series', 'frame'):
                rec.frame(v, x.index, ['dx', 'dy'], 'vectors')
            else:
                rec.true(isinstance(v, np.ndarray), 'vectors are an array')
            rec.close(np.asarray(v), want, f'vectors {pts} from {ref}', **EPS)
            rec.same(gen.snapshot([x, y]), sx, 'the coordinates')
            rec.same(gen.snapshot(r), sr, 'the reference')
            sv = gen.snapshot(v)
            for d in dirs:
                for k in (1, 2.5):
                    dv = (d[0] * k, d[1] * k)
                    for df in (tuple, list, np.array):
                        rec.step()
                        got = sp.project_vectors(v, df(dv))
                        w = (want[:, 0] * d[0] + want[:, 1] * d[1]) / \
                            math.hypot(*d)
                        if case['form'] in ('series', 'frame'):
                            rec.frame(got, x.index, ['dist'], 'distances')
                            got = got['dist']
                        else:
                            rec.same(np.shape(got), (n,), 'distances')
                        rec.close(np.asarray(got), w,
                                  f'projection of {pts} on {dv}',
                                  rtol=1e-12, atol=1e-8)
            if case['form'] == 'list':
                rec.step()
                rec.close(sp.project_vectors([tuple(q) for q in want], d), w,
                          'list of tuples', rtol=1e-12, atol=1e-8)
            if case['form'] in ('series', 'frame'):
                # the coordinates are the columns, whatever they are called
                for names in (['x', 'y'], ['b', 'a'], ['N', 'E'], [1, 0],
                              ['dy', 'dx'], ['c', 'c']):
                    rec.step()
                    got = sp.project_vectors(v.set_axis(names, axis=1), d)
                    rec.frame(got, x.index, ['dist'], 'distances')
                    rec.close(got['dist'], w, f'columns {names}', rtol=1e-12,
                              atol=1e-8)
            rec.same(gen.snapshot(v), sv, 'the vectors')
        rec.outcome(pts)


def run_cross(case, rec):
    """compute_intersection of all non-parallel pairs, alone and in batches."""
    from solarspatialtools import spatial as sp
    s = case['scale']
    V = [v for v in vectors(s, case['r']) if v != (0, 0)]
    pairs = [(a, b) for a in V for b in V
             if abs(a[0] * b[1] - a[1] * b[0]) > 1e-9 * s * s]
    A = np.array([p[0] for p in pairs])
    B = np.array([p[1] for p in pairs])
    snap = gen.snapshot([A, B])
    rec.step(2)
    C = sp.compute_intersection(A, B)
    D = sp.compute_intersection(B, A)
    rec.same(np.shape(C), A.shape, 'shape')
    rec.close(C, D, 'exchange of the vectors', rtol=1e-9, atol=1e-9 * s)
    for i, (a, b) in enumerate(pairs):
        # two lines: a.C = a.a, b.C = b.b  (Cramer in exact fractions)
        det = a[0] * b[1] - a[1] * b[0]
        aa, bb = a[0] ** 2 + a[1] ** 2, b[0] ** 2 + b[1] ** 2
        want = ((aa * b[1] - bb * a[1]) / det, (a[0] * bb - b[0] * aa) / det)
        rec.close(C[i], want, f'intersection of {a} and {b}', rtol=1e-9,
                  atol=1e-9 * s)
        for v in (a, b):
            m = math.hypot(*v)
            rec.close((C[i][0] * v[0] + C[i][1] * v[1]) / m, m,
                      f'projection of the intersection on {v}', rtol=1e-7)
        rec.step()
        rec.close(sp.compute_intersection(A[i:i + 1], B[i:i + 1])[0], C[i],
                  'one pair alone', rtol=1e-12, atol=1e-12 * s)
        rec.outcome(tuple(np.round(C[i] / s, 6)))
    rec.same(gen.snapshot([A, B]), snap, 'the arguments')


def run_large(case, rec):
    """Hundreds of vectors at once."""
    from solarspatialtools import spatial as sp
    n = case['n']
    A = (np.array([gen.hash01(n, 1), gen.hash01(n, 2)]).T - .5) * 4000
    B = (np.array([gen.hash01(n, 3), gen.hash01(n, 4)]).T - .5) * 900
    x, y = coords(case['form'], A.tolist(), 'int')
    ref = (123.25, -77.5)
    rec.step(2)
    v = sp.compute_vectors(x, y, ref)
    rec.close(np.asarray(v), A - ref, f'vectors {case}', rtol=1e-12,
              atol=1e-9)
    d = sp.project_vectors(v, (-3., 4.))
    rec.close(np.ravel(np.asarray(d)), (A - ref) @ [-.6, .8],
              f'distances {case}', rtol=1e-12, atol=1e-9)
    for th in (.3, -2., 7.):
        rec.step(2)
        z = (A @ [1, 1j]) * np.exp(1j * th)
        rec.close(sp.rotate_vector(A.T, th), [z.real, z.imag],
                  f'rotation {th} {case}', rtol=1e-12, atol=1e-9)
        r, t = sp.rect2pol(A[:, 0], A[:, 1])
        rec.close(r * np.exp(1j * t), A @ [1, 1j], f'polar {case}',
                  rtol=1e-12, atol=1e-9)
    det = A[:, 0] * B[:, 1] - A[:, 1] * B[:, 0]
    aa, bb = np.sum(A * A, 1), np.sum(B * B, 1)
    want = np.array([aa * B[:, 1] - bb * A[:, 1],
                     A[:, 0] * bb - B[:, 0] * aa]).T / det[:, None]
    ok = np.abs(det) > 1e-4 * np.sqrt(aa * bb)
    rec.step()
    rec.close(sp.compute_intersection(A, B)[ok], want[ok],
              f'intersections {case}', rtol=1e-6, atol=1e-6)
    rec.outcome(n)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('pairs', [dict(form=f, scale=s) for f in ('tuple', 'list', 'array',
                                                        'int', 'series')
                        for s in (1, 1000, 0.01, 1e-7, 1e9)
                        if not (f == 'int' and not 1 <= s < 1e6)],
              run_pairs, 'all pairs of a 5x5 grid of vectors'),
        Space('polar', [dict(steps=k) for k in ((12, 16, 360) if deep
                                                else (12, 16))],
              run_polar, 'all multiples of a step over four turns'),
        Space('rotate', [dict(steps=k, scale=s) for k in ((8, 12, 14, 36) if deep
                                                          else (8, 12))
                         for s in (1, 1000, .01, 1e-7)],
              run_rotate, 'grid of vectors x angles, pairs of angles'),
        Space('sites', [dict(form=f, ref=r, n=n, labels=l, int=i)
                        for i in (False, True) for f in ('list', 'tuple', 'array', 'series', 'frame')
                        for r in REFS for n in ((1, 2, 3) if deep else (1, 2))
                        for l in (('str', 'int', 'cmb') if f in
                                  ('series', 'frame') else ('int',))],
              run_sites, 'all plants of 1-2 (3) points from a menu x references '
              'x directions x containers'),
        Space('large', [dict(n=n, form=f) for n in (70, 500, 5000)
                        for f in ('list', 'array', 'series', 'frame')],
              run_large, 'up to 5000 vectors'),
        Space('cross', [dict(scale=s, r=r) for s in (1., 100., .01, 1e-6, 1e7)
                        for r in ((2, 3) if deep else (2,))],
              run_cross, 'all non-parallel pairs of a grid of vectors'),
    ]
