"""C01: histories of remappings.

Explicit-state search: a state is the table of positions reached (canonically:
which site's original row every site holds), a transition applies one
remapping with the real code.  The model is composition of functions."""
import collections
import itertools
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C01'
ASSUME = [
    'remappings cover all sites when they are cascaded (as assign_positions '
    'produces them)',
    'site labels are unique; up to 5 sites (the code treats sites uniformly)',
]


def table(labels, kind):
    n = len(labels)
    d = {'E': [100.0 + 10 * i for i in range(n)],
         'N': [-5.0 * i * i for i in range(n)]}
    if kind == 'mixed':
        d['zone'] = [10 + i for i in range(n)]
        d['name'] = [f's{i}' for i in range(n)]
    if kind == 'nan':
        d['N'][0] = np.nan
    if kind == 'int':
        d = {'E': [7 * i + 1 for i in range(n)], 'N': [i * i for i in range(n)]}
    return pd.DataFrame(d, index=labels)


def rows(df):
    return {k: tuple('nan' if isinstance(v, float) and v != v else v
                     for v in r)
            for k, r in zip(df.index, df.itertuples(index=False))}


def compose(f, g):
    """First f, then g:   data2[k] = data1[g(k)] = data[f(g(k))]"""
    return tuple(f[g[k]] for k in range(len(f)))


def as_remap(f, labels, order=None):
    order = range(len(f)) if order is None else order
    return [(labels[k], labels[f[k]]) for k in order]


def run_search(case, rec):
    """BFS over all tables reachable by remappings from `gens`."""
    from solarspatialtools import field
    labels = gen.labels(case['labels'], case['n'])
    n = case['n']
    data = table(labels, case['data'])
    orig = rows(data)
    snap = gen.snapshot(data)
    gens = {'perm': list(itertools.permutations(range(n))),
            'func': list(itertools.product(range(n), repeat=n)),
            'swap': [tuple(j if k == i else i if k == j else k
                           for k in range(n))
                     for i in range(n) for j in range(i, n)]}[case['gens']]
    ident = tuple(range(n))
    seen = {ident: (data, as_remap(ident, labels))}
    todo = collections.deque([ident])
    while todo:
        f = todo.popleft()
        cur, cum = seen[f]
        for g in gens:
            r = as_remap(g, labels)
            h = compose(f, g)
            rec.step(3)
            nxt = field.remap_positions(cur, r)
            cum2 = field.cascade_remap(cum, r)
            once = field.remap_positions(data, cum2)
            want = {labels[k]: orig[labels[h[k]]] for k in range(n)}
            what = f'history {f} then {g}'
            rec.same(dict(cum2), dict(as_remap(h, labels)),
                     f'cascade, {what}')
            rec.same(len(cum2), n, f'cascade length, {what}')
            rec.same(rows(nxt), want, f'step by step, {what}')
            rec.same(rows(once), want, f'at once, {what}')
            rec.frame(nxt, labels, data.columns, what)
            rec.frame(once, labels, data.columns, what)
            if h not in seen:
                seen[h] = (nxt, cum2)
                todo.append(h)
                rec.state()
                rec.outcome(h)
    rec.same(gen.snapshot(data), snap, 'the original data')


def run_three(case, rec):
    """Associativity: ((a, b), c) = (a, (b, c))."""
    from solarspatialtools import field
    n = case['n']
    labels = gen.labels(case['labels'], n)
    perms = list(itertools.permutations(range(n)))
    a = as_remap(perms[case['a']], labels)
    for pb in perms:
        b = as_remap(pb, labels)
        ab = field.cascade_remap(a, b)
        for pc in perms:
            c = as_remap(pc, labels)
            rec.step(3)
            left = field.cascade_remap(ab, c)
            right = field.cascade_remap(a, field.cascade_remap(b, c))
            want = compose(compose(perms[case['a']], pb), pc)
            rec.same(dict(left), dict(as_remap(want, labels)), 'left fold')
            rec.same(dict(right), dict(as_remap(want, labels)), 'right fold')
            rec.outcome(want)


def run_order(case, rec):
    """Listing order of the entries, partial remaps and column selection."""
    from solarspatialtools import field
    n = case['n']
    labels = gen.labels(case['labels'], n)
    data = table(labels, case['data'])
    orig = rows(data)
    cols = case['columns']
    snap = gen.snapshot(data)
    f = case['f']
    for size in range(n + 1):
        for sub in itertools.permutations(range(n), size):
            remap = as_remap(f, labels, sub)
            before = list(remap)
            rec.step()
            out = field.remap_positions(data, remap) if cols is None else \
                field.remap_positions(data, remap, columns=cols)
            use = list(data.columns) if cols is None else cols
            want = {}
            for k in range(n):
                row = []
                for ci, c in enumerate(data.columns):
                    src = f[k] if (k in sub and c in use) else k
                    row.append(orig[labels[src]][ci])
                want[labels[k]] = tuple(row)
            rec.frame(out, labels, data.columns, f'order {sub}')
            rec.same(rows(out), want, f'entries {remap} columns {cols}')
            rec.same(remap, before, 'the remap argument')
            rec.outcome(want)
            if size == n and cols is None and case['labels'] != 'mix':
                # cascades do not depend on the listing order either
                idn = as_remap(tuple(range(n)), labels)
                rec.step(2)
                rec.same(dict(field.cascade_remap(remap, idn)),
                         dict(as_remap(f, labels)), 'cascade with identity')
                rec.same(dict(field.cascade_remap(idn, remap)),
                         dict(as_remap(f, labels)), 'identity then cascade')
    rec.same(gen.snapshot(data), snap, 'the original data')


def run_rounds(case, rec):
    """assign -> cascade -> remap rounds, as the demos process a field: a
    scrambled plant is put right by the cascade of all rounds."""
    from solarspatialtools import field
    n = case['n']
    labels = gen.labels(case['labels'], n)
    plan = pd.DataFrame({'E': [0., 100., 0., 130., 50.][:n],
                         'N': [0., 0., 100., 120., 60.][:n]}, index=labels)
    for truth in itertools.permutations(range(n)):
        # predictions drift from the plan to the truth in two rounds
        for mid in itertools.permutations(range(n)):
            cum = [(k, k) for k in labels]
            cur = plan
            for target in (mid, truth):
                pred = pd.DataFrame(plan.values[list(target)] + 7.0,
                                    index=labels, columns=['E', 'N'])
                rec.step(3)
                r, fixed = field.assign_positions(cur, pred)
                cum = field.cascade_remap(cum, r)
                cur = field.remap_positions(plan, cum)
                rec.same(rows(fixed), rows(cur), f'round {target} of {truth}')
            rec.same(dict(cum), dict(as_remap(truth, labels)),
                     f'rounds {mid}, {truth}')
            rec.outcome(truth)


def run_large(case, rec):
    """Plants of real size: chains of remappings, listed in any order."""
    from solarspatialtools import field
    n = case['n']
    labels = gen.labels(case['labels'], n)
    data = table(labels, case['data'])
    orig = rows(data)
    ident = list(range(n))
    total, cum, cur = ident, as_remap(ident, labels), data
    for k in range(case['chain']):
        f = [int(v) for v in np.argsort(gen.hash01(n, 10 * k + case['salt']))]
        if k % 3 == 1:          # a few exchanges only
            f = list(ident)
            for a in range(0, n - 5, 11):
                f[a], f[a + 4] = f[a + 4], f[a]
        order = [int(v) for v in np.argsort(gen.hash01(n, 77 + k))]
        r = as_remap(f, labels, order)
        before = list(r)
        rec.step(3)
        cur = field.remap_positions(cur, r)
        cum = field.cascade_remap(cum, r)
        total = compose(total, f)
        want = {labels[i]: orig[labels[total[i]]] for i in range(n)}
        rec.same(rows(cur), want, f'step {k} of {case}')
        rec.same(dict(cum), dict(as_remap(total, labels)), f'cascade {case}')
        rec.same(rows(field.remap_positions(data, cum)), want,
                 f'at once after {k} of {case}')
        rec.same(r, before, 'the remap argument')
        rec.state()
        rec.outcome(total)
        # a part of the sites, some columns
        part = r[:n // 3]
        cols = list(data.columns)[::2]
        rec.step()
        got = rows(field.remap_positions(data, part, columns=cols))
        to = dict(part)
        for lab in labels:
            src = orig[to.get(lab, lab)]
            w = tuple(src[j] if c in cols else orig[lab][j]
                      for j, c in enumerate(data.columns))
            rec.same(got[lab], w, f'part, {lab}, {case}')


def spaces(tier):
    deep = tier == 'thorough'
    search = []
    for n in (1, 2, 3, 4, 5):
        for lab in ('str', 'int', 'cmb'):
            for data in ('float', 'mixed', 'nan', 'int'):
                for g in ('perm', 'func', 'swap'):
                    if g == 'func' and n > (4 if deep else 3):
                        continue
                    if g == 'func' and n == 4 and (lab, data) != ('int', 'mixed'):
                        continue
                    if n == 5 and (g == 'perm' or lab != 'int'
                                   or data != 'float') and not deep:
                        continue
                    if n == 5 and g == 'perm' and (lab == 'cmb'
                                                   or data != 'mixed'):
                        continue
                    if n == 4 and g == 'perm' and not deep and data != 'mixed':
                        continue
                    search.append(dict(n=n, labels=lab, data=data, gens=g))
    three = [dict(n=n, labels=lab, a=a)
             for n in ((2, 3, 4) if deep else (2, 3))
             for lab in ('str', 'int')
             for a in range({2: 2, 3: 6, 4: 24}[n])]
    order = [dict(n=n, labels=lab, data='mixed', columns=c, f=list(f))
             for n in ((2, 3, 4) if deep else (2, 3))
             for lab in ('str', 'int', 'mix')
             for c in (None, ['E', 'N'], ['N'], ['zone', 'name'], [])
             for f in itertools.product(range(n), repeat=n)]
    rounds = [dict(n=n, labels=lab) for n in ((2, 3, 4, 5) if deep
                                              else (2, 3, 4))
              for lab in ('str', 'int', 'cmb') if n < 5 or lab == 'int']
    large = [dict(n=n, labels=lab, data=d, chain=6 if deep else 4, salt=s)
             for n in ((20, 60, 150) if deep else (20, 60))
             for lab in ('str', 'int', 'cmb') for d in ('mixed', 'nan')
             for s in (0, 1)]
    return [
        Space('large', large, run_large, 'chains over 20-150 sites', chunk=1),
        Space('search', search, run_search,
              'all tables reachable by any number of permutations / transpositions '
              '/ maps of <=5 (3-4 for maps) sites, every edge executed', chunk=1),
        Space('three', three, run_three, 'all triples of permutations'),
        Space('order', order, run_order,
              'all maps, all listing orders of all subsets of entries'),
        Space('rounds', rounds, run_rounds,
              'two assign-cascade-remap rounds, all pairs of permutations', chunk=1),
    ]
