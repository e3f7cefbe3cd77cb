"""C15: error metrics over all small vectors."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C15'
ASSUME = ['numbers, arrays, series and tables of equal shape; the aggregate '
          'metrics for numbers, arrays and series']

VALS = [0.0, 1.0, -2.5, 1000.25]


def mean(v):
    v = [x for x in v if x == x]
    return math.fsum(v) / len(v) if v else math.nan


def build(form, v, ix):
    if form == 'scalar':
        return v[0]
    if form == 'array':
        return np.array(v)
    if form == 'int':
        return np.array([int(x) for x in v])
    if form == '2d':
        return np.array([v, v[::-1]])
    if form == 'column':
        return np.array(v)[:, None]
    if form == 'series':
        return pd.Series(v, index=ix, name='q')
    if form == 'int series':
        return pd.Series([int(x) for x in v], index=ix)
    raise ValueError(form)


def flat(form, v):
    if form == 'scalar':
        return v[:1]
    if form in ('int', 'int series'):
        return [float(int(x)) for x in v]
    if form == '2d':
        return v + v[::-1]
    return v


def check(rec, stats, b, e, fb, fe, what, shape=None):
    bias = [y - x for x, y in zip(fb, fe)]
    sb, se = gen.snapshot(b), gen.snapshot(e)
    rec.step(7)
    for name, fn, want in (
            ('bias_error', stats.bias_error, bias),
            ('absolute_error', stats.absolute_error, [abs(d) for d in bias]),
            ('squared_error', stats.squared_error, [d * d for d in bias])):
        got = fn(b, e)
        if isinstance(b, pd.Series):
            rec.true(isinstance(got, pd.Series), f'{name} keeps the series')
            rec.same(list(got.index), list(b.index), f'{name} index')
        else:
            rec.same(np.shape(got), np.shape(b), f'{name} shape')
        rec.close(np.ravel(np.asarray(got, dtype=float)), want,
                  f'{name} {what}', rtol=1e-12)
    B, A, S, R = (float(f(b, e)) for f in (stats.mbe, stats.mae, stats.mse,
                                           stats.rmse))
    rec.close(B, mean(bias), f'mbe {what}', rtol=1e-12, atol=1e-12)
    rec.close(A, mean([abs(d) for d in bias]), f'mae {what}', rtol=1e-12)
    rec.close(S, mean([d * d for d in bias]), f'mse {what}', rtol=1e-12)
    rec.close(R, math.sqrt(mean([d * d for d in bias])), f'rmse {what}',
              rtol=1e-12)
    if B == B:
        rec.true(abs(B) <= A + 1e-9 and A <= R + 1e-9, f'order {what}')
    rec.step(2)
    rec.close(stats.mbe(e, b), -B, f'exchanged mbe {what}', rtol=1e-12,
              atol=1e-12)
    rec.close(stats.rmse(e, b), R, f'exchanged rmse {what}', rtol=1e-12)
    rec.close(stats.mae(e, b), A, f'exchanged mae {what}', rtol=1e-12)
    rec.same(gen.snapshot(b), sb, 'baseline argument')
    rec.same(gen.snapshot(e), se, 'estimation argument')
    rec.outcome((round(B, 6), round(A, 6)))


def run(case, rec):
    from solarspatialtools import stats
    n = case['n']
    first = [case['first']] if n else []
    vals = VALS if not case['nan'] else VALS + [math.nan]
    ix = gen.labels(case['labels'], n) if case['labels'] != 'time' else \
        gen.tindex(n, 60, 'UTC')
    for rest in itertools.product(vals, repeat=2 * n - 1):
        v = first + list(rest)
        fb, fe = v[:n], v[n:]
        b = build(case['form'], fb, ix)
        e = build(case['form'], fe, ix)
        check(rec, stats, b, e, flat(case['form'], fb), flat(case['form'], fe),
              f'{fb} {fe}')


def run_mixed(case, rec):
    """A number or an array against a series or an array."""
    from solarspatialtools import stats
    for v in itertools.product(VALS, repeat=3):
        for c in VALS:
            v = list(v)
            ix = gen.labels('str', 3)
            other = {'array': np.array(v), 'series': pd.Series(v, index=ix)}[
                case['form']]
            rec.step(4)
            rec.close(np.asarray(stats.bias_error(c, other)), [x - c for x in v],
                      'number against many')
            rec.close(np.asarray(stats.bias_error(other, c)), [c - x for x in v],
                      'many against number')
            rec.close(stats.rmse(c, other),
                      math.sqrt(mean([(x - c) ** 2 for x in v])), 'rmse',
                      rtol=1e-12)
            rec.close(stats.mbe(c, other), mean([x - c for x in v]), 'mbe',
                      rtol=1e-12, atol=1e-12)
            rec.outcome((v, c))


KINDS = {
    'float': lambda v, ix: np.array(v),
    'int': lambda v, ix: np.array([int(x) for x in v]),
    'single': lambda v, ix: np.array(v, dtype=np.float32),
    'int32': lambda v, ix: np.array([int(x) for x in v], dtype=np.int32),
    'series': lambda v, ix: pd.Series(v, index=ix),
    'int series': lambda v, ix: pd.Series([int(x) for x in v], index=ix),
    'short': lambda v, ix: np.array([int(x) for x in v]).astype(np.int16),
    'byte': lambda v, ix: np.array([abs(int(x)) % 250 for x in v],
                                   dtype=np.uint8),
    'unsigned series': lambda v, ix: pd.Series(
        [abs(int(x)) for x in v], index=ix, dtype='uint32'),
}


def run_kinds(case, rec):
    """The two arguments may be of different kinds; errors far smaller than
    the values."""
    from solarspatialtools import stats
    ix = gen.labels('str', 2)
    kb, ke = case['kinds']
    single = 'single' in (kb, ke)
    vals = case['vals']
    for v in itertools.product(vals, repeat=4):
        b, e = KINDS[kb](list(v[:2]), ix), KINDS[ke](list(v[2:]), ix)
        d = [float(y) - float(x) for x, y in zip(np.asarray(b), np.asarray(e))]
        sb, se = gen.snapshot(b), gen.snapshot(e)
        what = f'{kb} {v[:2]}, {ke} {v[2:]}'
        tol = dict(rtol=1e-5, atol=1e-5) if single else dict(rtol=1e-12,
                                                             atol=0)
        rec.step(7)
        for fn, want in ((stats.bias_error, d),
                         (stats.absolute_error, np.abs(d)),
                         (stats.squared_error, np.square(d))):
            rec.close(np.asarray(fn(b, e), float), want,
                      f'{fn.__name__} {what}', **tol)
        for fn, want in ((stats.mae, np.mean(np.abs(d))),
                         (stats.mse, np.mean(np.square(d))),
                         (stats.rmse, np.sqrt(np.mean(np.square(d))))):
            rec.close(float(fn(b, e)), want, f'{fn.__name__} {what}', **tol)
        rec.close(float(stats.mbe(b, e)), np.mean(d), f'mbe {what}',
                  rtol=tol['rtol'], atol=tol['rtol'] * np.max(np.abs(d)))
        rec.same((gen.snapshot(b), gen.snapshot(e)), (sb, se), 'arguments')
        rec.outcome((kb, ke, v))


def run_label(case, rec):
    """Labels decide what is compared, in any order and for partial overlap."""
    from solarspatialtools import stats
    lab = gen.labels(case['labels'], 4)
    vb = [3., -1., 10., 0.5]
    ve = [2., 7., -4., 100.]
    for pb in itertools.permutations(range(4), case['nb']):
        for pe in itertools.permutations(range(4), case['ne']):
            if not set(pb) & set(pe):
                continue
            b = pd.Series([vb[i] for i in pb], index=[lab[i] for i in pb])
            e = pd.Series([ve[i] for i in pe], index=[lab[i] for i in pe])
            both = [i for i in range(4) if i in pb and i in pe]
            d = [ve[i] - vb[i] for i in both]
            rec.step(5)
            q = stats.bias_error(b, e)
            for i in range(4):
                if i in both:
                    rec.close(q[lab[i]], ve[i] - vb[i], f'label {lab[i]}',
                              rtol=1e-12)
                elif i in pb or i in pe:
                    rec.true(np.isnan(q[lab[i]]), f'unmatched {lab[i]}')
            rec.close(stats.mbe(b, e), mean(d), 'mbe', rtol=1e-12, atol=1e-12)
            rec.close(stats.mae(b, e), mean([abs(x) for x in d]), 'mae',
                      rtol=1e-12)
            rec.close(stats.mse(b, e), mean([x * x for x in d]), 'mse',
                      rtol=1e-12)
            rec.close(stats.rmse(b, e), math.sqrt(mean([x * x for x in d])),
                      'rmse', rtol=1e-12)
            rec.outcome((pb, pe))


def run_large(case, rec):
    """Many values."""
    from solarspatialtools import stats
    n = case['n']
    fb = np.round(gen.hash01(n, 1) * 900, 3)
    fe = np.round(gen.hash01(n, 2) * 950 - 20, 3)
    for form in ('array', 'int', 'column', 'series', '2d'):
        ix = gen.tindex(n, 1.)
        b, e = (build(form, list(v), ix) for v in (fb, fe))
        check(rec, stats, b, e, flat(form, list(fb)), flat(form, list(fe)),
              f'{case} {form}')


def run_table(case, rec):
    """Element-wise errors of tables."""
    from solarspatialtools import stats
    for v in itertools.product([0., 2., -3.5], repeat=4):
        b = pd.DataFrame([v[:2], v[2:]], index=['u', 'v'], columns=['a', 'b'])
        e = pd.DataFrame([[1., -1.], [5., 2.]], index=['u', 'v'],
                         columns=['a', 'b'])
        if case['swap']:
            e = e[['b', 'a']].iloc[::-1]
        w = e.loc[['u', 'v'], ['a', 'b']].values - b.values
        rec.step(3)
        for fn, want in ((stats.bias_error, w), (stats.absolute_error, abs(w)),
                         (stats.squared_error, w * w)):
            got = fn(b, e).loc[['u', 'v'], ['a', 'b']]
            rec.close(got.values, want, f'{fn.__name__} of tables', rtol=1e-12)
        rec.outcome(v)


def spaces(tier):
    deep = tier == 'thorough'
    cs = [dict(form=f, n=n, nan=nan, first=v, labels=l)
          for f in ('scalar', 'array', 'int', '2d', 'column', 'series',
                    'int series')
          for n in ((1,) if f == 'scalar' else (1, 2, 3) if deep or
                    f in ('array', 'series') else (1, 2))
          for nan in (False, True)
          for v in VALS
          for l in (('str', 'int', 'time') if 'series' in f else ('str',))
          if not (nan and (f != 'series' or n > 2))
          and not (n == 3 and l in ('str', 'time') and 'series' in f
                   and not deep)]
    kinds = [dict(kinds=[a, b], vals=v) for a in KINDS for b in KINDS
             for v in ([0., 1., -2.5, 1000.25], [1., 1 + 2**-40, -3., 7e8])
             if not {'single', 'short'} & {a, b} or v[0] == 0]
    return [
        Space('values', cs, run, 'all pairs of vectors of length <= 3 over the '
              'value alphabet, all containers'),
        Space('mixed', [dict(form=f) for f in ('array', 'series')], run_mixed,
              'number against vectors'),
        Space('kinds', kinds, run_kinds, 'all pairs of kinds of arguments x '
              'all pairs of vectors of length 2'),
        Space('large', [dict(n=n) for n in (50, 1001, 120000)], run_large,
              'up to 120000 values'),
        Space('label', [dict(labels=l, nb=i, ne=j) for l in ('str', 'int')
                        for i in (1, 2, 3, 4) for j in (1, 2, 3, 4)],
              run_label, 'all orders of all subsets of four labels'),
        Space('table', [dict(swap=s) for s in (False, True)], run_table,
              'all 2x2 tables over three values'),
    ]
