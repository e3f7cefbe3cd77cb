"""A menu of calls that covers the documented computations, on shared argument
objects: used by the checks about histories (C24) and schedules (C25).

Every computation appears with at least two sets of arguments of the same
shape, labels and types, so that anything kept from one call can be told from
what another call needs."""
import contextlib
import enum
import io
import numpy as np
import pandas as pd
from mc import gen

IDS = ['B', 'A', 'D', 'C', 'E']


def pool():
    """The shared arguments."""
    p = {}
    xy = [(0., 0.), (30., 5.), (-10., 40.), (55., 60.), (-45., 20.)]
    n = 240
    base = [gen.hash01(n + 400, 11), gen.hash01(n + 400, 12)]
    for v, (ang, spd) in enumerate(((.6, 8.), (2.4, 12.))):
        b = np.convolve(base[v], np.ones(9) / 9, 'same')
        b = .3 + .9 * (b - b.min()) / (b.max() - b.min())
        cols = {}
        for k, (x, y) in zip(IDS, xy):
            d = (x * np.cos(ang) + y * np.sin(ang)) / spd
            cols[k] = np.interp(np.arange(n) + 200 - d,
                                np.arange(len(b)), b)
        df = pd.DataFrame(cols, index=gen.tindex(n, 1., 'UTC'))
        p[f'kt{v}'] = df
        p[f'ts{v}'] = df['A'].copy()
        p[f'ghi{v}'] = df * 800. + 3.
        p[f'one{v}'] = df[['A']].copy()
        pos = pd.DataFrame([(500000. + x * (1 + .2 * v), 4e6 + y)
                            for x, y in xy], index=IDS, columns=['E', 'N'])
        p[f'pos{v}'] = pos
        p[f'll{v}'] = pd.DataFrame(
            [(36.1 + .0001 * y, -84. + .0001 * x + .01 * v) for x, y in xy],
            index=IDS, columns=['lat', 'lon'])
        p[f'vec{v}'] = np.array([[1., 2.], [-3., .5], [2., -2.]]) + v
        p[f'csg{v}'] = pd.Series(900. + 20 * v + 30 * np.sin(
            np.arange(n) / 40), index=df.index)
        p[f'nan{v}'] = df.where(
            (np.arange(n)[:, None] + 5 * np.arange(5) + v) % 17 > 3)
        p[f'flag{v}'] = pd.DataFrame(
            (np.arange(n)[:, None] * 7 + np.arange(5) + v) % 5, index=df.index,
            columns=IDS)
        p[f'remap{v}'] = [('B', 'A'), ('A', 'D'), ('D', 'B'), ('C', 'C'),
                          ('E', 'E')] if v == 0 else \
            [('B', 'E'), ('E', 'B'), ('A', 'A'), ('C', 'D'), ('D', 'C')]
        p[f'cmvs{v}'] = [(8. + v, .3), (7., 1.9 + v), (9., -2.), (10., 4.)]
        p[f'opt{v}'] = {'mincorr': .5, 'maxvelocity': 50 - 42 * v}
        p[f'optg{v}'] = {'ktlim': .3 + .1 * v}
        p[f'tf{v}'] = pd.Series(
            np.exp(-2j * np.pi * np.arange(-20, 21) * .01 * (3 + v)) /
            (1 + np.abs(np.arange(-20, 21)) * .1),
            index=np.fft.ifftshift(np.arange(-20, 21) * .01))
        p[f'wide{v}'] = pd.Series(
            np.exp(-1j * np.linspace(-.6, .6, 31) * (3 + v)),
            index=np.linspace(-.6, .6, 31))
        p[f'coh{v}'] = pd.Series(
            .99 - .01 * v - np.abs(p[f'tf{v}'].index.values) / 2,
            index=p[f'tf{v}'].index)
        day = pd.date_range('2020-03-01', periods=6 * 48, freq='30min',
                            tz='UTC')
        p[f'days{v}'] = pd.Series(gen.hash01(len(day), 21 + v) * 900, index=day)
        p[f'par{v}'] = {'comp': [.8051, 7.3605, .7092 - .1 * v],
                        'mean': [2.2928, 1.0801, .4532],
                        'sdevClear': [.3512, 4.8414, .6442],
                        'sdevCloud': [.1997, 5.0919, .3863],
                        'corr_quadr': .0043 * (1 + 4 * v)}
        p[f'field{v}'] = gen.hash01(63, 31 + v).reshape(9, 7)
        p[f'mask{v}'] = (gen.hash01(63, 33 + v).reshape(9, 7) > .6) * 1.
        p[f'edge{v}'] = (gen.hash01(63, 35 + v).reshape(9, 7) > .7)
        p[f'w{v}'] = np.array([.5, .3, .2]) if v == 0 else \
            np.array([.1, .6, .3])
    p['times'] = [gen.tindex(4, 1., None, f'2020-06-01 1{i}:00:00')
                  for i in (0, 1)]
    p['e'] = np.array([0., 30., -10.])
    p['n'] = np.array([5., -20., 40.])
    p['pars'] = [p['par0'], p['par1']]
    p['spd'] = [5., 12.]
    p['dir'] = [.4, 2.]
    p['csi'] = [.75, .45]
    p['scales'] = [1, 2, 3]
    return p


def plain(x, depth=0):
    """Results as nested plain data (labels, numbers, text)."""
    if depth > 6:
        return repr(type(x))
    if isinstance(x, pd.DataFrame):
        return ['DF', [str(c) for c in x.columns], plain(x.index, depth + 1),
                [plain(x.iloc[:, i].values, depth + 1)
                 for i in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ['S', plain(x.index, depth + 1), plain(x.values, depth + 1)]
    if isinstance(x, pd.Index):
        if x.dtype.kind in 'fciu':
            return ['I', np.asarray(x)]
        return ['I', [str(v) for v in x]]
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [plain(v, depth + 1) for v in x.ravel()]
        if x.dtype.kind in 'fciub':
            return np.array(x)
        return [str(v) for v in x.ravel()]
    if isinstance(x, (bool, np.bool_)) or x is None:
        return str(x)
    if isinstance(x, (int, float, complex, np.number)):
        return np.array(x)
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return ['D', sorted(([str(k), plain(v, depth + 1)]
                             for k, v in x.items()), key=lambda t: t[0])]
    if isinstance(x, (list, tuple, set, frozenset)):
        return ['L'] + [plain(v, depth + 1) for v in x]
    if hasattr(x, '__dict__'):
        return plain(vars(x), depth + 1)
    return repr(type(x))


def differ(a, b, path=''):
    """None, or where two plain results differ"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shape {b.shape} instead of {a.shape}'
        s = np.max(np.abs(a[np.isfinite(a)]), initial=0) if a.size else 0
        if not np.all(np.isclose(b, a, rtol=1e-7,
                                 atol=1e-9 * float(s) + 1e-12,
                                 equal_nan=True)):
            return f'{path}: {b.ravel()[:4]} instead of {a.ravel()[:4]}'
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(b)} items instead of {len(a)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}.{i}')
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return f'{path}: {str(b)[:80]} instead of {str(a)[:80]}'
    return None


def _ops():
    from solarspatialtools import (cmv, field, signalproc as sp, spatial,
                                   stats, irradiance)
    from solarspatialtools.dataio import hope_campaign as hope
    from solarspatialtools.synthirrad import cloudfield as cf, copula
    ops = {}

    def op(name, fn, generator=False):
        ops[name] = (fn, generator)

    def both(name, fn, generator=False):
        for v in (0, 1):
            op(f'{name}{v}', lambda p, v=v: fn(p, v), generator)

    def exc(fn):
        def g(*a):
            try:
                return fn(*a)
            except (ValueError, KeyError, TypeError, IndexError) as e:
                return 'raised ' + type(e).__name__
        return g

    # cloud motion
    both('cmv.jamaly', lambda p, v: cmv.compute_cmv(p[f'kt{v}'], p['pos0']))
    both('cmv.jamaly.opt', lambda p, v: cmv.compute_cmv(
        p['kt0'], p['pos0'], 'A', 'jamaly', p[f'opt{v}']))
    both('cmv.gagne', lambda p, v: cmv.compute_cmv(
        p[f'kt{v}'], p['pos1'], ['A', 'B'], 'gagne', p[f'optg{v}']))
    op('cmv.tf', lambda p: cmv.compute_cmv(p['kt0'], p['pos0'], 'A',
                                           delay_backend='tf'))
    op('cmv.bad.option', exc(lambda p: cmv.compute_cmv(
        p['kt0'], p['pos0'], 'A', 'gagne', p['opt0'])))
    op('cmv.bad.method', exc(lambda p: cmv.compute_cmv(
        p['kt0'], p['pos0'], 'A', 'none', p['opt0'])))
    op('cmv.bad.id', exc(lambda p: cmv.compute_cmv(
        p['kt0'], p['pos0'], ['A', 'nosuch'])))
    op('cmv.dark', exc(lambda p: cmv.compute_cmv(
        p['kt0'] * 0, p['pos0'])))
    both('optimum_subset', lambda p, v: cmv.optimum_subset(
        *np.array([(a * np.cos(b), a * np.sin(b))
                   for a, b in p[f'cmvs{v}']]).T, n=2))

    # field
    both('predict.auto', lambda p, v: field.compute_predicted_position(
        [p['kt0'], p['kt1']], p[f'pos{v}'], 'A'))
    both('predict.given', lambda p, v: field.compute_predicted_position(
        [p['kt0'], p['kt1']], p['pos0'], 'B', p[f'cmvs{v}'][:2],
        mode='distance'))
    op('predict.all', lambda p: field.compute_predicted_position(
        [p['kt0'], p['kt1']], p['pos0'], 'B', p['cmvs0'][:2], mode='all'))
    op('predict.global', lambda p: field.compute_predicted_position(
        [p['kt0'], p['kt1']], p['pos0'], 'D', p['cmvs0'][:2],
        mode='global_coherence'))
    op('predict.bad', exc(lambda p: field.compute_predicted_position(
        [p['kt0'], p['kt1']], p['pos0'], 'A', p['cmvs0'][:2], mode='none')))
    both('field.delays', lambda p, v: field.compute_delays(
        p[f'kt{v}'], 'A', freq_limit=.1, navgs=4))
    both('remap', lambda p, v: field.remap_positions(p['pos0'],
                                                     p[f'remap{v}']))
    both('remap.cols', lambda p, v: field.remap_positions(
        p[f'pos{v}'], p['remap0'], columns=['N']))
    both('cascade', lambda p, v: field.cascade_remap(p[f'remap{v}'],
                                                     p['remap1']))
    both('assign', lambda p, v: field.assign_positions(
        p['pos0'], p[f'pos{v}'].iloc[::-1] + [3., -2.]))

    # signal processing
    for s in ('coeff', 'none', 'energy'):
        both(f'correlation.{s}', lambda p, v, s=s: sp.correlation(
            p['ts0'].values, p[f'ts{v}'].values, s))
    both('averaged_psd', lambda p, v: sp.averaged_psd(p[f'ts{v}'], 4))
    both('averaged_psd.df', lambda p, v: sp.averaged_psd(
        p[f'kt{v}'], 3, .25, 'hann', 'constant'))
    both('averaged_tf', lambda p, v: sp.averaged_tf(p['ts0'], p[f'kt{v}'], 5))
    both('averaged_tf.pairs', lambda p, v: sp.averaged_tf(
        p[f'kt{v}'], p[f'kt{1 - v}'], 5, 0.))
    both('interp_tf', lambda p, v: sp.interp_tf(
        np.linspace(-.15, .15, 11), p[f'tf{v}']))
    for m in ('fit', 'diff', 'multi'):
        both(f'tf_delay.{m}', lambda p, v, m=m: sp.tf_delay(
            p[f'tf{v}'].sort_index(), p[f'coh{v}'].sort_index(), .6, .1, m))
    both('xcorr_delay', lambda p, v: sp.xcorr_delay(
        p['kt0']['A'], p[f'kt{v}']['C']))
    for m in ('loop', 'fft'):
        both(f'delays.{m}', lambda p, v, m=m: sp.compute_delays(
            p[f'kt{v}'], p['kt0'], mode=m))
    both('delays.same', lambda p, v: sp.compute_delays(
        p[f'kt{v}'], p[f'kt{v}'], mode='loop', scaling='none'))
    both('delays_tf', lambda p, v: sp.compute_delays_tf(
        p[f'one{v}'], p['kt1'], 4, .5, .1, compute_xcorr=bool(v)))
    op('delays_tf.fit', lambda p: sp.compute_delays_tf(
        p['one0'], p['kt0'], 4, .5, .1, 'fit'))
    both('apply_delay', lambda p, v: sp.apply_delay(p[f'tf{v}'], 1.5 + v))
    for s in ('square', 'gaussian', 'triangle'):
        both(f'plant.{s}', lambda p, v, s=s: sp.get_1d_plant(
            [0., 20. + v, 50.], 10. * v, 8, s, 1, 500))
    both('camfilter', lambda p, v: sp.get_camfilter(
        p[f'pos{v}'], 9. - 20 * v, (.7, 1.), p['pos0'].loc['A'], xmax=2000))
    both('camfilter.ll', lambda p, v: sp.get_camfilter(
        p[f'll{v}'], 9., (.7, 1.), p['ll0'].loc['B'], xmax=2000))
    both('plant.camfilter', lambda p, v: sp.plant1d_to_camfilter(
        np.array([0., 1., 2., 1. + v, 0.]), np.arange(-2., 3.), 4.))
    both('apply_filter', lambda p, v: sp.apply_filter(
        p[f'ts{v}'], sp.get_marcosfilter(.5 + v, np.linspace(-.5, .5, 101))))
    both('apply_filter.freq', lambda p, v: sp.apply_filter(
        p['ts0'], p[f'wide{v}']))
    both('cleanfreq', lambda p, v: sp.cleanfreq(p[f'tf{v}'].copy()))
    both('marcos', lambda p, v: sp.get_marcosfilter(2. + v))

    # spatial
    both('latlon2utm', lambda p, v: spatial.latlon2utm(
        p[f'll{v}']['lat'], p[f'll{v}']['lon']))
    both('latlon2utm.zone', lambda p, v: spatial.latlon2utm(36., -84., 16 + v))
    both('utm2latlon', lambda p, v: spatial.utm2latlon(
        p[f'pos{v}']['E'], p[f'pos{v}']['N'], 16 + v, south=bool(v)))
    both('latlon2lcs', lambda p, v: spatial.latlon2lcs(
        p[f'll{v}']['lat'].values, p[f'll{v}']['lon'].values, 36. + v, -84.))
    both('lcs2latlon', lambda p, v: spatial.lcs2latlon(
        np.array([10., 200. + v]), np.array([5., -70.]), 36., -84. + v))
    for m in ('matlab', 'tmerc'):
        both(f'lla2flat.{m}', exc(lambda p, v, m=m: spatial.lla2flat(
            p[f'll{v}']['lat'], p[f'll{v}']['lon'], 36., -84., m)))
    both('vectors', lambda p, v: (
        spatial.dot(p[f'vec{v}'], p['vec0']), spatial.unit(p[f'vec{v}'][0]),
        spatial.magnitude(p[f'vec{v}']),
        spatial.rect2pol(*p[f'vec{v}'][:2]),
        spatial.pol2rect(*p[f'vec{v}'][:2]),
        spatial.rotate_vector(p[f'vec{v}'][0], .3)))
    both('project', lambda p, v: spatial.project_vectors(
        spatial.compute_vectors(p[f'pos{v}']['E'], p[f'pos{v}']['N'],
                                p['pos0'].loc['A']), p['vec0'][0]))
    both('compute_vectors', lambda p, v: spatial.compute_vectors(
        p[f'pos{v}']['E'], p[f'pos{v}']['N'], p[f'pos{v}'].iloc[1]))
    both('intersection', lambda p, v: spatial.compute_intersection(
        p[f'vec{v}'], p['vec0'][::-1]))
    both('spacetime', lambda p, v: spatial.spacetime_distances(
        p['e'], p['n'], p['times'][v], 5., .4 + v))

    # statistics
    for f in ('rmse', 'mse', 'squared_error', 'mae', 'absolute_error', 'mbe',
              'bias_error'):
        both(f'stats.{f}', lambda p, v, f=f: getattr(stats, f)(
            p['kt0'], p[f'kt{v}'] + .1))
    for f in ('variability_score', 'darr'):
        both(f'stats.{f}', lambda p, v, f=f: getattr(stats, f)(
            p[f'kt{v}'], tau=5, moving_avg=bool(v)))
        both(f'stats.{f}.series', lambda p, v, f=f: getattr(stats, f)(
            p[f'ts{v}'], pct=True))
    both('stats.vi', lambda p, v: stats.variability_index(
        p[f'ghi{v}']['A'], p['csg0'], 3, bool(v)))
    both('stats.quantile', lambda p, v: stats.calc_quantile(
        p[f'days{v}'], '3d', .5 + .1 * v))
    both('clearsky_index', lambda p, v: irradiance.clearsky_index(
        p[f'ghi{v}'], p['csg0']))
    both('clearsky_index.max', lambda p, v: irradiance.clearsky_index(
        p['ghi0']['A'], p['csg1'], .8 + .1 * v))

    # quality control
    both('flag_qc', lambda p, v: hope.flag_qc(p['nan0'], p[f'flag{v}'],
                                              2 + v))
    both('null_qc', lambda p, v: hope.null_qc(p[f'ghi{v}'] - 400.))
    both('interp_nan', lambda p, v: hope.interp_nan(p[f'nan{v}'], 4 + v))

    # synthetic irradiance
    both('downscale', lambda p, v: copula.downscale(
        p['times'][v], p['e'], p['n'], 5., .4, .75 - .2 * v, p[f'par{v}'],
        seed=3), True)
    both('downscale.default', lambda p, v: copula.downscale(
        p['times'][0], p['e'], p['n'], 5., .4, .6 + .2 * v,
        copula.DEFAULT_PARAMS, seed=3 + v, scale=bool(v)), True)
    both('multihour', lambda p, v: copula.downscale_multihour(
        p['times'], p['e'], p['n'], p['spd'], p['dir'] if v else .4, p['csi'],
        p['pars'] if v else p['par0'], seed=4), True)
    op('multihour.bad', exc(lambda p: copula.downscale_multihour(
        p['times'], p['e'], p['n'], p['spd'] + [1.], p['dir'], p['csi'],
        p['pars'], seed=4)), True)

    def seeded(fn):
        def g(p, v=0):
            np.random.seed(5)
            return fn(p, v)
        return g
    both('cf.stack', seeded(lambda p, v: cf._stack_random_field(
        p[f'w{v}'], p['scales'], (8, 6))), True)
    both('cf.series', seeded(lambda p, v: cf.cloudfield_timeseries(
        p[f'w{v}'], p['scales'], (12, 9), .3, .6, 1.3, .1,
        scaling=('original', 'basic')[v])), True)
    both('cf.mask', lambda p, v: cf._calc_clear_mask(p[f'field{v}'], .4))
    both('cf.edges', lambda p, v: cf._find_edges(p[f'mask{v}'], 3, .2))
    both('cf.scale', lambda p, v: cf._scale_field_lave(
        p[f'field{v}'], p['mask0'], p[f'edge{v}'], .7))
    both('cf.stats', lambda p, v: cf.get_timeseries_stats(p[f'ts{v}']))
    both('cf.weights', lambda p, v: (
        cf._calc_vs_weights(np.array([1., 2., 4.]), 20. + v),
        cf._calc_wavelet_weights(p[f'field{v}'])))
    both('cf.position', lambda p, v: cf.get_positional_ts(
        (10., 5.), p[f'field{v}'], 5., 4))
    return ops


_CACHE = {}


def ops():
    if not _CACHE:
        _CACHE.update(_ops())
    return _CACHE


def call(name, p):
    with contextlib.redirect_stdout(io.StringIO()):
        return ops()[name][0](p)


def image(x):
    """A quick, exact image of the shared arguments."""
    if isinstance(x, pd.DataFrame):
        v = x.to_numpy()
        if v.dtype == object:
            return (tuple(image(x.iloc[:, i]) for i in range(x.shape[1])),
                    tuple(x.columns))
        return (v.dtype.str, v.shape, v.tobytes(), image(x.index),
                tuple(x.columns), tuple(x.dtypes))
    if isinstance(x, pd.Series):
        v = x.to_numpy()
        d = repr(v.tolist()) if v.dtype == object else v.tobytes()
        return (v.dtype.str, d, image(x.index), x.name)
    if isinstance(x, pd.DatetimeIndex):
        return (str(x.tz), x.asi8.tobytes(), x.name)
    if isinstance(x, pd.Index):
        return (tuple(x), x.name)
    if isinstance(x, np.ndarray):
        d = repr(x.tolist()) if x.dtype == object else x.tobytes()
        return (x.dtype.str, x.shape, d)
    if isinstance(x, dict):
        return tuple((k, image(v)) for k, v in x.items())
    if isinstance(x, list):
        return [image(v) for v in x]
    if isinstance(x, tuple):
        return tuple(image(v) for v in x)
    return x
