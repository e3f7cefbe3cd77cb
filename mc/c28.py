"""C28: options of the documented computations, given or left out.

Every computation is called with every combination of options left out, given
with their documented default, and given with another value, by name and by
position in the documented order."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen, menu

PROP = 'C28'
ASSUME = [
    'the documented default of an option is the one of its documentation, or '
    'of the documented signature where the text names none',
    'options that only plot, print or debug are left out of the enumeration; '
    'random seeds are always given',
    'results agree to a relative 1e-7',
]


def sized(p):
    """Further arguments, chosen so that every option makes a difference"""
    n = 600
    t = np.arange(n)
    for v in (0, 1):
        a = gen.hash01(n + 60, 51 + v)
        s = np.convolve(a, np.ones(4) / 4, 'same')[20:20 + n]
        cols = {}
        for i, k in enumerate(menu.IDS):
            e = gen.hash01(n, 61 + i)
            cols[k] = .3 + .8 * np.roll(s, i - 2) * (1 + .1 * np.sin(
                t / (90. + i))) + .02 * (i + 1) * (e - .5) + .0004 * t
        p[f'sig{v}'] = pd.DataFrame(cols, index=gen.tindex(n, (10., 15.)[v],
                                                           'UTC'))
        g = .4 * np.sin(t / (40. + 9 * v)) + gen.hash01(n, 71 + v) * 900 + 40
        p[f'gh{v}'] = pd.Series(g, index=gen.tindex(n, 20. - 5 * v, None),
                               name='g')
        p[f'gap{v}'] = pd.DataFrame(
            {k: pd.Series(gen.hash01(80, 75 + v + i)).where(
                (np.arange(80) % 20) >= 3 + i) for i, k in
             enumerate('abcdef')})
        d = pd.date_range('2020-02-01', periods=34 * 4, freq='6h', tz='UTC')
        p[f'long{v}'] = pd.Series(gen.hash01(len(d), 81 + v), index=d,
                                  name='x')
        p[f'cv{v}'] = pd.Series(gen.hash01(24, 85 + v) - .5), \
            pd.Series(gen.hash01(24, 87 + v) - .5)
        p[f'fld{v}'] = gen.hash01(4000, 91 + v).reshape(80, 50)
        p[f'msk{v}'] = (np.convolve(gen.hash01(4000, 93 + v), np.ones(15) / 15,
                                    'same').reshape(80, 50) > .56) * 1.
        p[f'col{v}'] = gen.hash01(4000 * 4, 95 + v).reshape(-1, 4)
        # sensors near every limit of the quality control
        m = 400
        b = np.convolve(gen.hash01(m + 90, 41 + v), np.ones(7) / 7, 'same')
        ang = .5 + v
        xy = [(0, 0), (40, 10), (-30, 60), (90, -20), (20, -15), (8, 3)]
        cols = {}
        for i, (x, y) in enumerate(xy):
            dl = (x * np.cos(ang) + y * np.sin(ang)) / (8. + 60 * v)
            z = np.interp(np.arange(m) + 45 - dl, np.arange(len(b)), b)
            z = (z - z.min()) / (z.max() - z.min())
            lo, hi = [(.1, 1.1), (.2, .9), (.3, 1.), (.94, 1.0), (.1, .37),
                      (.3, 1.2)][i]
            if i in (1, 2):
                z = z + (.25, .33)[i - 1] * gen.hash01(m, 99 + i)
                z = (z - z.min()) / (z.max() - z.min())
            cols[i] = lo + (hi - lo) * z
        p[f'qk{v}'] = pd.DataFrame(cols, index=gen.tindex(m, 1.))
        p[f'qp{v}'] = pd.DataFrame(xy, columns=['E', 'N'], dtype=float)
    return p


def wide(q):
    """Parameters of a cloudy component that reaches below zero"""
    return dict(q, comp=[.6] + list(q['comp'][1:]),
                sdevCloud=[.8] + list(q['sdevCloud'][1:]))


def _table():
    from solarspatialtools import (cmv, field, signalproc as sp, spatial,
                                   stats, irradiance)
    from solarspatialtools.dataio import hope_campaign as hope, iotools
    from solarspatialtools.synthirrad import cloudfield as cf, copula
    T = {}

    def E(name, fn, names, args, opts):
        """names of the required arguments, their values, and the options:
        name, documented default, another value"""
        T[name] = (fn, names.split(), args, opts)

    def seeded(fn):
        def g(*a, **k):
            np.random.seed(7)
            return fn(*a, **k)
        return g
    E('compute_cmv', cmv.compute_cmv, 'timeseries positions',
      lambda p, v: (p[f'qk{v}'], p[f'qp{v}']),
      [('reference_id', None, 1), ('method', 'jamaly', 'gagne'),
       ('options', None, {'ktlim': .2}), ('delay_backend', 'xcorr', 'tf')])
    E('optimum_subset', cmv.optimum_subset, 'cmvx cmvy',
      lambda p, v: p[f'cv{v}'], [('n', 10, 4)])
    E('predict', field.compute_predicted_position, 'dfs pos_utm ref',
      lambda p, v: ([p['sig0'].iloc[:, ::-1], p['sig1']], p[f'pos{v}'], 'D'),
      [('cld_vecs', None, np.array([[3., 1], [-1, 2.5]])),
       ('mode', 'coherence', 'distance'), ('ndownsel', 8, 3),
       ('navgs', 5, 3), ('coh_limit', .6, .9), ('freq_limit', .02, .012),
       ('delay_method', 'multi', 'fit')])
    E('field.compute_delays', field.compute_delays, 'df ref',
      lambda p, v: (p[f'sig{v}'], 'D'),
      [('navgs', 5, 3), ('coh_limit', .6, .99), ('freq_limit', .02, .012),
       ('method', 'multi', 'fit')])
    E('remap_positions', field.remap_positions, 'data remap',
      lambda p, v: (p[f'pos{v}'], p[f'remap{v}']), [('columns', None, ['N'])])
    E('clearsky_index', irradiance.clearsky_index, 'ghi clearsky_ghi',
      lambda p, v: (p[f'ghi{v}'] * 3, p['csg0'] if v else 400.),
      [('max_clearsky_index', 2.0, 1.3)])
    E('correlation', sp.correlation, 'baseline estimation',
      lambda p, v: (p[f'sig{v}']['A'], p[f'sig{v}']['C']),
      [('scaling', 'coeff', 'unbiased_energy')])
    E('averaged_psd', sp.averaged_psd, 'input_tsig navgs',
      lambda p, v: (p['sig1']['A'] if v else p['sig0'], 4),
      [('overlap', .5, .2), ('window', 'hamming', 'boxcar'),
       ('detrend', 'linear', 'constant'), ('scaling', 'density', 'spectrum')])
    for v_, what in enumerate(('sig', 'one')):
        E('averaged_tf' + what, sp.averaged_tf, 'input_tsig output_tsig navgs',
          lambda p, v, w=v_: ((p['sig1']['A'], p['sig1']['B']),
                              (p['sig0'][['A']], p['sig0']))[
              (v + w) % 2] + (3,),
          [('overlap', .5, .2), ('window', 'hamming', 'boxcar'),
           ('detrend', 'linear', None)])
    E('tf_delay', sp.tf_delay, 'tf coh',
      lambda p, v: sp.averaged_tf(p[f'sig{v}']['A'], p[f'sig{v}']['BD'[v]],
                                       3),
      [('coh_limit', .6, .995), ('freq_limit', .02, .012),
       ('method', 'fit', 'multi')])
    E('xcorr_delay', sp.xcorr_delay, 'ts_in ts_out',
      lambda p, v: (p[f'sig{v}']['A'], p[f'sig{v}']['C']),
      [('scaling', 'coeff', 'energy')])
    E('compute_delays', sp.compute_delays, 'ts_in ts_out',
      lambda p, v: (p[f'sig{v}'], p[f'sig{v}'].iloc[:, ::-1]),
      [('mode', 'loop', 'fft'), ('scaling', 'coeff', 'none')])
    E('compute_delays_tf', sp.compute_delays_tf, 'ts_in ts_out',
      lambda p, v: (p[f'sig{v}']['A'], p['sig1'] if v else p['sig0']['D']),
      [('navgs', 5, 3), ('coh_limit', .6, .99), ('freq_limit', .02, .012),
       ('method', 'multi', 'fit'), ('overlap', .5, .2),
       ('window', 'hamming', 'boxcar'), ('compute_xcorr', False, True)])
    E('get_1d_plant', sp.get_1d_plant, 'centers',
      lambda p, v: ([3., 20. + v, -31],),
      [('ref_center', 0, 7), ('width', None, 8), ('shape', 'square',
                                                  'gaussian'),
       ('dx', 1, 2), ('xmax', 500000, 400)])
    E('get_camfilter', sp.get_camfilter, 'positions cloud_speed cloud_dir '
      'ref_position',
      lambda p, v: (p['pos0'], 9. - 20 * v, (1., .5), p['pos0'].loc['A']),
      [('dx', 1, 3)])
    E('shapes of camfilter', sp.get_camfilter,
      'positions cloud_speed cloud_dir ref_position',
      lambda p, v: (p['pos0'], 9. - 20 * v, (1., .5), p['pos0'].loc['A']),
      [('dx', 1, 2), ('width', None, 30), ('shape', 'square', 'gaussian'),
       ('xmax', 500000, 3000)])
    E('get_marcosfilter', sp.get_marcosfilter, 's', lambda p, v: (2. + v,),
      [('freq', None, np.array([0., .1, .3]))])
    E('latlon2utm', spatial.latlon2utm, 'lat lon',
      lambda p, v: (p['ll0']['lat'], p['ll0']['lon']) if v else (36., -84.),
      [('zone', None, 16)])
    E('utm2latlon', spatial.utm2latlon, 'e n zone',
      lambda p, v: (p['pos0']['E'], p['pos0']['N'], 16) if v else
      (5e5, 4e6, 30), [('south', False, True)])
    E('latlon2lcs', spatial.latlon2lcs, 'lat lon origin_lat origin_lon',
      lambda p, v: (36.1 + v, -84., 36., -83.9), [('zone', None, 16)])
    E('lcs2latlon', spatial.lcs2latlon, 'east north origin_lat origin_lon',
      lambda p, v: (500., -700. + v, 36., -83.9), [('zone', None, 16)])
    E('lla2flat', spatial.lla2flat, 'lat lon latref lonref',
      lambda p, v: (np.array([36.1, 36.2 + v]), np.array([-84., -84.1]), 36.,
                    -84.2), [('method', 'matlab', 'tmerc')])
    for f in ('variability_score', 'darr'):
        E(f, getattr(stats, f), 'series',
          lambda p, v: (p['gh1'] if v else pd.DataFrame(
              {'a': p['gh0'], 'b': p['gh0'] ** .9}),),
          [('tau', 1, 5), ('moving_avg', True, False), ('pct', False, True)])
    E('variability_index', stats.variability_index, 'ghi clearsky',
      lambda p, v: (p[f'gh{v}'], p[f'gh{v}'] ** .8),
      [('moving_avg_tau', 1, 4), ('norm', False, True)])
    E('calc_quantile', stats.calc_quantile, 'timeseries',
      lambda p, v: (p['long0'] if not v else p['long1'].to_frame(),),
      [('n_days', '30d', '5d'), ('quantile', .9, .5)])
    E('flag_qc', hope.flag_qc, 'data flag',
      lambda p, v: (p[f'kt{v}'], p[f'flag{v}']), [('level', 2, 3)])
    E('interp_nan', hope.interp_nan, 'data', lambda p, v: (p[f'gap{v}'],),
      [('limit', 5, 3)])
    for f in ('downscale', 'downscale_multihour'):
        m = f != 'downscale'
        E(f, getattr(copula, f),
          'times e_pos n_pos cloud_spd cloud_dir mean_csi params seed',
          lambda p, v, m=m: (p['times'] if m else p['times'][v], p['e'],
                             p['n'], 50., .4, [.3, .5] if m else .3 + .2 * v,
                             wide(p[f'par{v}']),
                             3 + 3 * v),
          [('scale', True, False), ('noneg', True, False)])
    E('get_timeseries_stats', cf.get_timeseries_stats, 'kt_ts',
      lambda p, v: (p[f'ts{v}'] * .8 + .3,), [('clear_threshold', .95, .8)])
    E('get_positional_ts', cf.get_positional_ts,
      'tgt_position field cloud_speed',
      lambda p, v: ((12., 4. + v), p['col0'], 2.),
      [('duration', 3600, 10)])
    E('stack', seeded(cf._stack_random_field), '',
      lambda p, v: (p[f'w{v}'], [1, 2, 3], (16, 12)),
      [('normalize', False, True)])
    E('clear_mask', cf._calc_clear_mask, 'field', lambda p, v: (p[f'fld{v}'],),
      [('clear_frac', .5, .3)])
    E('find_edges', cf._find_edges, 'base_mask size',
      lambda p, v: (p[f'msk{v}'], 3), [('binarize_threshold', 0, .4)])
    E('scale_lave', cf._scale_field_lave, 'field clear_mask edge_mask ktmean',
      lambda p, v: (p[f'fld{v}'], p[f'msk{v}'], p[f'msk{1 - v}'][::-1], .7),
      [('ktmax', 1.4, 1.2), ('kt1pct', .2, .1), ('max_quant', .99, .9)])
    E('scale_basic', cf._scale_field_basic,
      'field clear_mask edge_mask ktmean',
      lambda p, v: (p[f'fld{v}'], p[f'msk{v}'], p[f'msk{1 - v}'][::-1], .75),
      [('ktmax', 1.4, 1.2), ('kt1pct', .2, .1), ('quant', .999, .9),
       ('flipdistr', False, True), ('cs_smoothing', None, .8)])
    E('cloudfield', seeded(cf.cloudfield_timeseries),
      'weights scales size frac_clear ktmean ktmax kt1pct',
      lambda p, v: (p[f'w{v}'], [2, 3, 4], (60, 40), .3, .6, 1.3, .1),
      [('scaling', 'original', 'basic'), ('edgesmoothing', 3, 7)])
    # the documented limits of the two methods
    for m, o in (('jamaly', [('minvelocity', 0, 12.), ('maxvelocity', 70, 30.),
                             ('var_s_lim', .05, .01), ('ktlim', .4, .3),
                             ('mincorr', .8, .9)]),
                 ('gagne', [('ktlim', .4, .3)])):
        E('limits of ' + m,
          lambda timeseries, positions, m=m, **k: cmv.compute_cmv(
              timeseries, positions, method=m, options=k),
          'timeseries positions',
          lambda p, v: (p[f'qk{v}'], p[f'qp{v}']), o)
    return T


def table():
    if not hasattr(table, 't'):
        table.t = _table()
    return table.t


def call(fn, *a, **k):
    import contextlib
    import io
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            return menu.plain(fn(*a, **k))
        except Exception as e:
            return 'raised ' + type(e).__name__


def run(case, rec):
    fn, names, args, opts = table()[case['fn']]
    p = sized(menu.pool())
    v = case['v']
    keys = [o[0] for o in opts]
    std = {o[0]: o[1] for o in opts}
    alt = {o[0]: o[2] for o in opts}
    pos = case['fn'].split()[0] not in ('limits', 'shapes')

    def same(got, want, what):
        d = menu.differ(want, got)
        rec.true(not d, lambda: f'{case["fn"]} {what}: {d}')

    base = call(fn, *args(p, v), **std)
    rec.true(not isinstance(base, str), f'{case["fn"]}: {base}')
    used = set()
    # every choice of options that are given another value: the others left
    # out one by one, all left out, or given by position
    for r in range(len(keys) + 1):
        for A in itertools.combinations(keys, r):
            given = {k: alt[k] for k in A}
            rest = [k for k in keys if k not in A]
            rec.step()
            rec.outcome((case['fn'], A))
            want = call(fn, *args(p, v), **dict(std, **given))
            if r == 1 and menu.differ(base, want):
                used.add(A[0])
            for q in range(len(rest)):
                for B in itertools.combinations(rest, q):
                    if q not in (0, len(rest) - 1) and r > 1:
                        continue
                    rec.step()
                    kw = dict(given, **{k: std[k] for k in B})
                    same(call(fn, *args(p, v), **kw), want,
                         f'with {A or "nothing"} changed and {B} given')
            if pos:
                full = dict(std, **given)
                m = max([keys.index(k) for k in A], default=-1) + 1
                rec.step()
                same(call(fn, *args(p, v), *[full[k] for k in keys[:m]]),
                     want, f'{keys[:m]} by position')
            if '_' == getattr(fn, '__name__', '')[:1] or not names:
                continue
            rec.step()
            kw = dict(zip(names, args(p, v)))
            same(call(fn, **dict(kw, **full if pos else given)), want,
                 f'arguments {names} by name, {A} changed')
    rec.extra['options'] = max(rec.extra['options'], len(keys))
    rec.extra['effective'] = rec.extra.get('effective', 0) + len(used)


def _bad():
    from solarspatialtools import (cmv, field, signalproc as sp, spatial,
                                   stats)
    from solarspatialtools.synthirrad import cloudfield as cf
    B = {}
    words = ['', None, 'none at all', 'Jamali', 'ALL', 'linear']

    def each(name, f, more=()):
        for w in words + list(more):
            B[f'{name} {w!r}'] = (lambda p, f=f, w=w: f(p, w))
    each('cmv method', lambda p, w: cmv.compute_cmv(
        p['kt0'], p['pos0'], method=w))
    each('cmv backend', lambda p, w: cmv.compute_cmv(
        p['kt0'], p['pos0'], delay_backend=w))
    for m in ('jamaly', 'gagne'):
        each(f'{m} option', lambda p, w, m=m: cmv.compute_cmv(
            p['kt0'], p['pos0'], method=m, options={'ktlim': .1, w: .5}),
            ['kt_lim', 'min_corr', 'Ktlim'] +
            ['mincorr', 'maxvelocity', 'var_s_lim', 'minvelocity'] *
            (m == 'gagne'))
    for vecs in (None, np.array([[3., 1], [-1, 2.5]])):
        each(f'predict mode {vecs is None}',
             lambda p, w, c=vecs: field.compute_predicted_position(
                 [p['kt0'], p['kt1']], p['pos0'], 'A', c, mode=w),
             ['coherences', 'closest'])
        each(f'predict delay method {vecs is None}',
             lambda p, w, c=vecs: field.compute_predicted_position(
                 [p['kt0'], p['kt1']], p['pos0'], 'A', c, delay_method=w),
             ['xcorr'])
    for a in (0, 1):
        each(f'correlation scaling {a}', lambda p, w, a=a: sp.correlation(
            *[(x if a else x.values) for x in (p['ts0'], p['ts1'])], w),
            ['unbiased'])
        each(f'delays mode {a}', lambda p, w, a=a: sp.compute_delays(
            p['kt0'], p[f'kt{a}'], w), ['tf'])
        each(f'delays scaling {a}', lambda p, w, a=a: sp.compute_delays(
            p['kt0'], p[f'kt{a}'], ('loop', 'fft')[a], w), ['energy'])
    each('xcorr scaling', lambda p, w: sp.xcorr_delay(p['ts0'], p['ts1'], w))
    each('tf delay method', lambda p, w: sp.tf_delay(
        p['tf0'].sort_index(), p['coh0'].sort_index(), method=w), ['xcorr'])
    each('delays tf method', lambda p, w: sp.compute_delays_tf(
        p['ts0'], p['kt0'], method=w), ['xcorr', 'loop'])
    each('psd scaling', lambda p, w: sp.averaged_psd(p['ts0'], 4, scaling=w))
    each('psd window', lambda p, w: sp.averaged_psd(p['ts0'], 4, window=w))
    each('tf window', lambda p, w: sp.averaged_tf(p['ts0'], p['ts1'], 4,
                                                  window=w))
    each('delays tf window', lambda p, w: sp.compute_delays_tf(
        p['ts0'], p['kt0'], window=w))
    each('plant shape', lambda p, w: sp.get_1d_plant([0., 5.], shape=w,
                                                     xmax=100), ['round'])
    each('camfilter shape', lambda p, w: sp.get_camfilter(
        p['pos0'], 9., (1., .5), p['pos0'].loc['A'], shape=w), ['round'])
    each('flat method', lambda p, w: spatial.lla2flat(36., -84., 36., -84., w),
         ['utm'])
    each('cloudfield scaling', lambda p, w: cf.cloudfield_timeseries(
        p['w0'], p['scales'], (12, 9), .3, .6, 1.3, .1, scaling=w),
        ['lave'])
    return B


def run_bad(case, rec):
    if not hasattr(run_bad, 'b'):
        run_bad.b = _bad()
    p = menu.pool()
    for name, f in run_bad.b.items():
        if not name.startswith(case['of']):
            continue
        rec.step()
        got = call(f, p)
        rec.true(isinstance(got, str) and got.startswith('raised'),
                 lambda: f'{name} is accepted')
        rec.outcome(name)


GROUPS = ['cmv method', 'cmv backend', 'jamaly option', 'gagne option',
          'predict mode', 'predict delay method', 'correlation scaling',
          'delays mode', 'delays scaling', 'xcorr scaling', 'tf delay method',
          'delays tf method', 'delays tf window', 'psd scaling', 'psd window', 'tf window',
          'plant shape', 'camfilter shape', 'flat method', 'cloudfield scaling']


def spaces(tier):
    vs = (0, 1)
    return [
        Space('options', lambda: [dict(fn=f, v=v) for f in table()
                                  for v in vs], run,
              'every combination of options left out, given, changed',
              chunk=1),
        Space('refused', [dict(of=g) for g in GROUPS], run_bad,
              'undocumented choices'),
    ]
