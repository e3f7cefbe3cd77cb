"""C26: the most diverse subset of motion vectors, by brute force."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C26'
ASSUME = ['nonzero vectors, at least as many as requested',
          'resolution of the search: the alignment may miss the optimum by at '
          'most 3e-4 per vector']

TOL = 3e-4


def best(angles, n, sub=None):
    """Largest sum of |cos| between n vectors and n equally spaced directions,
    over all rotations (fine grid) and all injective assignments."""
    idx = range(len(angles)) if sub is None else sub
    phi = np.linspace(0, math.pi / n, 241)
    k = np.arange(n) * math.pi / n
    dots = np.abs(np.cos(np.asarray(angles)[None, None, :] -
                         (k[None, :, None] + phi[:, None, None])))
    return max(dots[:, range(n), list(m)].sum(axis=1).max()
               for m in itertools.permutations(idx, n))


LENGTHS = [1.0, 12.5, 0.01, 3.0, 400.0, 7.0, 1.5]
FORMS = {'array': np.array, 'list': list, 'series': pd.Series,
         'labelled': lambda v: pd.Series(v, index=gen.labels('str', len(v)))}


def call(rec, angs, lens, n, form):
    from solarspatialtools.cmv import optimum_subset
    x = FORMS[form]([l * math.cos(a) for a, l in zip(angs, lens)])
    y = FORMS[form]([l * math.sin(a) for a, l in zip(angs, lens)])
    snap = gen.snapshot([x, y])
    rec.step()
    got = optimum_subset(x, y, n=n)
    rec.same(gen.snapshot([x, y]), snap, 'the arguments')
    got = [int(i) for i in got]
    rec.same(len(got), n, 'size of the subset')
    rec.same(len(set(got)), n, f'distinct positions {got}')
    rec.true(all(0 <= i < len(angs) for i in got), 'positions')
    return got


def run(case, rec):
    N, n, step = case['N'], case['n'], case['step']
    k = 360 // step
    first = case['first']
    for rest in itertools.combinations_with_replacement(range(first, k), N - 1):
        degs = [first * step] + [r * step for r in rest]
        # all orders are equivalent up to renaming; scramble instead
        order = sorted(range(N), key=lambda i: (i * 7 + sum(degs) // step) % 11)
        angs = [math.radians(degs[i]) for i in order]
        lens = [LENGTHS[(i + len(rest)) % 7] for i in range(N)]
        top = best(angs, n)
        got = call(rec, angs, lens, n, case['form'])
        have = best(angs, n, got)
        rec.true(have >= top - TOL * n, lambda: f'{[degs[i] for i in order]} '
                 f'choose {n}: {got} reaches {have}, possible {top}')
        rec.outcome(round(have, 4))
        if case['meta']:
            for what, a2, l2 in (
                    ('unit lengths', angs, [1.0] * N),
                    ('one reversed', [a + math.pi * (i == N // 2)
                                      for i, a in enumerate(angs)], lens),
                    ('all reversed', [a + math.pi for a in angs], lens),
                    ('rotated', [a + 0.321 for a in angs], lens)):
                g2 = call(rec, a2, l2, n, case['form'])
                h2 = best(a2, n, g2)
                rec.true(h2 >= top - TOL * n, lambda: f'{what}: {degs} choose '
                         f'{n}: {g2} reaches {h2}, possible {top}')


def run_plain(case, rec):
    """Vectors off the grid."""
    N, n = case['N'], case['n']
    angs = list(gen.hash01(N, case['salt']) * 2 * math.pi)
    lens = [LENGTHS[(i + case['salt']) % 7] for i in range(N)]
    top = best(angs, n)
    for rot in (0.0, 0.7, 2.9):
        a = [x + rot for x in angs]
        got = call(rec, a, lens, n, 'series')
        have = best(a, n, got)
        rec.true(have >= top - TOL * n, lambda: f'{a} choose {n}: {got} '
                 f'reaches {have}, possible {top}')
        rec.outcome(round(have, 4))


def run_large(case, rec):
    """Many vectors, large subsets: by an assignment for every rotation."""
    from scipy.optimize import linear_sum_assignment
    N, n = case['N'], case['n']
    angs = gen.hash01(N, case['salt']) * 2 * math.pi
    lens = [LENGTHS[(i + case['salt']) % 7] for i in range(N)]
    k = np.arange(n) * math.pi / n

    def top(a):
        b = 0
        for phi in np.linspace(0, math.pi / n, 181):
            d = np.abs(np.cos(a[None] - (k[:, None] + phi)))
            i, j = linear_sum_assignment(d, maximize=True)
            b = max(b, d[i, j].sum())
        return b
    got = call(rec, angs, lens, n, case['form'])
    have, can = top(angs[got]), top(angs)
    rec.true(have >= can - 4e-4 * n, lambda: f'{case}: {got} reaches {have}, '
             f'possible {can}')
    rec.outcome(round(have, 4))


def run_all(case, rec):
    """Requesting every vector returns all of them."""
    N = case['N']
    for degs in itertools.combinations(range(0, 180, 30), N):
        angs = [math.radians(d + 180 * (i % 2)) for i, d in enumerate(degs)]
        got = call(rec, angs, LENGTHS[:N], N, case['form'])
        rec.same(sorted(got), list(range(N)), 'all vectors')
        rec.outcome(degs)


def spaces(tier):
    deep = tier == 'thorough'
    cs = []
    for N, n, step in (((2, 1, 30), (3, 2, 30), (4, 2, 45), (4, 3, 45))
                       + (((3, 2, 15), (4, 2, 30), (4, 3, 30), (5, 3, 45),
                           (5, 2, 45), (5, 4, 45), (6, 3, 60)) if deep else
                          ((5, 3, 60),))):
        for first in range(360 // step):
            for form in (('array', 'labelled') if N < 4 else ('series',)):
                cs.append(dict(N=N, n=n, step=step, first=first, form=form,
                               meta=N <= 3))
    return [Space('grid', cs, run, 'all multisets of directions on a grid', chunk=1),
            Space('plain', [dict(N=N, n=n, salt=s)
                            for N, n in ((5, 3), (6, 2), (6, 3), (7, 3), (6, 4))
                            for s in range(120 if deep else 40)],
                  run_plain, 'irregular directions'),
            Space('large', [dict(N=N, n=n, salt=s, form=f)
                            for N, n in ((12, 10), (40, 10), (150, 6), (25, 2),
                                         (30, 20), (9, 8), (16, 12))
                            for s, f in ((1, 'series'), (2, 'array'),
                                         (3, 'labelled'))], run_large,
                  'up to 150 vectors, subsets of up to 20'),
            Space('all', [dict(N=N, form=f) for N in (1, 2, 3, 4)
                          for f in FORMS], run_all, 'subset = everything')]
