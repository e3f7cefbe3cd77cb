"""C02: optimal assignment, against brute force over all permutations."""
import itertools
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C02'
ASSUME = [
    'expected and predicted tables list the same sites in the same order',
    'coordinates are finite where present; a site counts as missing when '
    'either coordinate is NaN',
    'up to 5 sites (optimality is decided against all permutations)',
]
GRID = [(0., 0.), (10., 0.), (0., 10.), (10., 10.), (4., 7.), (25., -3.)]


def frames(exp, pred, labels, extra):
    n = len(labels)
    E = pd.DataFrame(np.array(exp, dtype=float).reshape(n, 2), index=labels,
                     columns=['E', 'N'])
    P = pd.DataFrame(np.array(pred, dtype=float).reshape(n, 2), index=labels,
                     columns=['E', 'N'])
    if extra == 'zone':
        E['zone'] = [float(i) for i in range(n)]
    elif extra == 'orig-text':
        E['name'] = [f's{i}' for i in range(n)]
    elif extra == 'pred-num':
        P['coh'] = [1e4 * i for i in range(n)]
    elif extra == 'pred-nan':
        P['coh'] = [np.nan if i % 2 == 0 else 1.0 for i in range(n)]
    elif extra == 'pred-text':
        P['flag'] = ['x'] * n
    elif extra == 'xy':
        E.columns = ['x', 'y']
        P.columns = ['px', 'py']
    return E, P


def decide(E, P, labels, rec, what):
    from solarspatialtools import field
    n = len(labels)
    sE, sP = gen.snapshot(E), gen.snapshot(P)
    rec.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        remap, out = field.assign_positions(E, P)
    rec.same(gen.snapshot(E), sE, f'expected positions modified, {what}')
    rec.same(gen.snapshot(P), sP, f'predicted positions modified, {what}')
    m = dict(remap)
    rec.same(len(remap), n, f'number of entries, {what}')
    rec.same(set(m), set(labels), f'sites in the first column, {what}')
    rec.same(set(m.values()), set(labels), f'one-to-one, {what}')
    e = E.iloc[:, :2].values.astype(float)
    p = P.iloc[:, :2].values.astype(float)
    missing = [bool(np.any(np.isnan(p[k]))) for k in range(n)]
    for k in range(n):
        if missing[k]:
            rec.same(m[labels[k]], labels[k], f'missing site moved, {what}')
    free = [k for k in range(n) if not missing[k]]
    pos = {lab: k for k, lab in enumerate(labels)}
    dist = [[float(np.hypot(*(p[k] - e[j]))) for j in range(n)]
            for k in range(n)]
    got = sum(dist[k][pos[m[labels[k]]]] for k in free)
    best = min((sum(dist[k][q[i]] for i, k in enumerate(free))
                for q in itertools.permutations(free)), default=0.0)
    rec.true(got <= best + 1e-9 * (1 + best),
             lambda: f'total distance {got}, possible {best}, {what}: {remap}')
    # the table: every site has the complete row of its assigned site
    rec.frame(out, labels, E.columns, what)
    rows = {lab: tuple(r) for lab, r in zip(labels, E.values.tolist())}
    for lab, r in zip(labels, out.values.tolist()):
        rec.same(tuple(r), rows[m[lab]], f'row of {lab}, {what}')
    rec.outcome([pos[m[lab]] for lab in labels])
    return m


def run_grid(case, rec):
    """Everything on the grid: expected fixed, predictions anywhere."""
    exp = [GRID[i] for i in case['exp']]
    n = len(exp)
    labels = gen.labels(case['labels'], n)
    off = case['offset']
    pts = [(x + off[0], y + off[1]) for x, y in GRID[:case['npts']]]
    for pred in itertools.product(pts, repeat=n):
        E, P = frames(exp, pred, labels, case['extra'])
        decide(E, P, labels, rec, f'{exp} {pred}')


def run_range(case, rec):
    """Layouts of any extent, predictions near, far away and between."""
    s = case['scale']
    n = case['n']
    exp = [(0., 0.), (1. * s, .2 * s), (2. * s, 0.), (3. * s, .1 * s)][:n]
    labels = gen.labels(case['labels'], n)
    pts = [(1.1 * s, 0.), (2.6 * s, .3 * s), (case['far'] * s, 0.),
           (-case['far'] * s, .9 * case['far'] * s), (1.4 * s, -s)]
    for pred in itertools.product(pts, repeat=n):
        E, P = frames(exp, pred, labels, 'none')
        decide(E, P, labels, rec, f'{exp} {pred}')


def run_missing(case, rec):
    """Every pattern of missing coordinates for every true permutation."""
    exp = [(0., 0.), (30., 5.), (3., 40.), (55., 60.), (80., -20.)][:case['n']]
    n = case['n']
    labels = gen.labels(case['labels'], n)
    for perm in itertools.permutations(range(n)):
        for pat in itertools.product(range(3), repeat=n):
            if sum(v > 0 for v in pat) > case['maxmiss']:
                continue
            pred = [[exp[j][0] + 2., exp[j][1] - 1.] for j in perm]
            for k, v in enumerate(pat):
                if v == 1:
                    pred[k][k % 2] = np.nan
                if v == 2:
                    pred[k] = [np.nan, np.nan]
            E, P = frames(exp, pred, labels, case['extra'])
            decide(E, P, labels, rec, f'{perm} missing {pat}')


def run_scale(case, rec):
    """Larger plants in UTM-like coordinates: the plan displaced by a small
    error is found exactly, for shifts, swaps and cycles."""
    n = case['n']
    labels = ([f'CMB-{(13 * i) % n:03d}' for i in range(n)]
              if case['labels'] == 'cmb' else [(13 * i) % n for i in range(n)])
    exp = [(7e5 + 37. * (i % 6) + (i % 5), 3.9e6 + 29. * (i // 6) + (i % 3))
           for i in range(n)]
    jit = case.get('jitter', 6) * (gen.hash01(2 * n, case['salt']) - .5).reshape(n, 2)
    k = case['shift']
    perm = list(range(n))
    perm = perm[k:] + perm[:k]
    for i, j in case['swaps']:
        perm[i], perm[j] = perm[j], perm[i]
    pred = np.array([exp[j] for j in perm]) + jit
    gone = case['missing']
    pred[gone] = np.nan
    E, P = frames(exp, pred, labels, case['extra'])
    m = decide_large(E, P, labels, rec, str(case))
    if not gone and 'jitter' not in case:
        rec.same(m, {labels[i]: labels[perm[i]] for i in range(n)}, str(case))


def decide_large(E, P, labels, rec, what):
    """As decide(), with optimality decided by the absence of improving
    pairwise exchanges and cyclic triples."""
    from solarspatialtools import field
    rec.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        remap, out = field.assign_positions(E, P)
    m = dict(remap)
    n = len(labels)
    rec.same(len(remap), n, what)
    rec.same(set(m), set(labels), what)
    rec.same(set(m.values()), set(labels), what)
    e = dict(zip(labels, E.values[:, :2].astype(float)))
    p = dict(zip(labels, P.values[:, :2].astype(float)))
    free = [k for k in labels if not np.any(np.isnan(p[k]))]
    for k in labels:
        if k not in free:
            rec.same(m[k], k, f'missing site moved, {what}')
        rec.true(np.array_equal(out.loc[k].values[:2].astype(float), e[m[k]]),
                 f'row of {k}, {what}')
    d = {(a, b): float(np.hypot(*(p[a] - e[m[b]]))) for a in free for b in free}
    for a, b in itertools.combinations(free, 2):
        rec.true(d[a, a] + d[b, b] <= d[a, b] + d[b, a] + 1e-6,
                 lambda: f'exchange {a} {b} improves, {what}')
    for a, b, c in itertools.permutations(free[:12], 3):
        rec.true(d[a, a] + d[b, b] + d[c, c]
                 <= d[a, b] + d[b, c] + d[c, a] + 1e-6,
                 lambda: f'cycle {a} {b} {c} improves, {what}')
    return m


def spaces(tier):
    deep = tier == 'thorough'
    extras = ['none', 'zone', 'orig-text', 'pred-num', 'pred-nan',
              'pred-text', 'xy']
    grid = []
    for n in (1, 2, 3, 4):
        exps = list(itertools.permutations(range(5), n)) if n < 3 else \
            list(itertools.combinations(range(6), n)) + [tuple(range(n))[::-1]]
        for exp in exps:
            for lab in ('str', 'int'):
                for off in ([0., 0.], [3., -1.]):
                    for extra in extras:
                        full = extra == 'none' and lab == 'int'
                        if n == 4 and not (full and off[0] and deep):
                            continue
                        if n == 3 and not deep and not (
                                full and off[0]) and exp != (0, 1, 2):
                            continue
                        grid.append(dict(exp=list(exp), labels=lab, offset=off,
                                         extra=extra,
                                         npts=4 if n > 2 else 6))
    ranges = [dict(n=n, scale=s, far=f, labels='str')
              for n in ((2, 3, 4) if deep else (2, 3))
              for s in (1e-4, .01, 1., 1e3, 1e5, 1e8)
              for f in (5, 40, 300, 1e4)]
    missing = [dict(n=n, labels=lab, extra=extra,
                    maxmiss=n if n < 4 else (4 if deep else 2))
               for n in ((2, 3, 4, 5) if deep else (2, 3, 4))
               for lab in ('str', 'int') for extra in extras
               if n < 4 or extra in (['none', 'zone'] if n == 4 else ['none'])]
    scale = [dict(n=n, labels=lab, salt=s, shift=k, swaps=sw, missing=ms,
                  extra=x)
             for n in ((12, 25, 40) if deep else (12, 25))
             for lab in ('cmb', 'int')
             for s, k in ((0, 0), (1, 1), (2, 5), (3, 0))
             for sw in ([], [[0, n - 1]], [[1, 2], [3, 7]])
             for ms in ([], [0], [2, 5], [n - 1])
             for x in ('none', 'pred-text')
             if x == 'none' or lab == 'cmb']
    scale += [dict(n=n, labels='int', salt=s, shift=k, swaps=[], missing=ms,
                   extra='none', jitter=j)
              for n in ((60, 120) if deep else (60,))
              for s, k in ((4, 0), (5, 3)) for ms in ([], [3, 17, 40])
              for j in (10, 60, 9e3)]
    return [
        Space('grid', grid, run_grid, 'expected positions: distinct grid points; '
              'predicted: every point of a grid for every site'),
        Space('range', ranges, run_range, 'extents from 0.1 mm to 1e8 m x '
              'predictions up to 1e4 times farther away'),
        Space('missing', missing, run_missing,
              'all permutations x all missing patterns (NaN in E, in both)', chunk=1),
        Space('plants', scale, run_scale,
              'larger plants: rotations, swaps and missing sites'),
    ]
