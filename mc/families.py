"""Families of calls: each public computation in many argument forms and with
every option, on shared argument objects (never on temporaries, so that an
altered argument shows).  Used by C24 (histories within a family) and C25."""
import contextlib
import io
import numpy as np
import pandas as pd
from mc import gen, menu


# limits that no pair, or nearly none, meets
EXTREME = dict(minvelocity=1e3, maxvelocity=1e-3, var_s_lim=.99, ktlim=9.,
               mincorr=1.01)


def pool():
    p = menu.pool()
    for k, v in EXTREME.items():
        p['x' + k] = {k: v}
    n = 60
    lat = np.array([36.1, 36.2, 35.9])
    lon = np.array([-84.2, -84.1, -84.3])
    ix = ['B', 'A', 'D']
    for h, s in (('N', 1.), ('S', -1.)):
        p[f'lat{h}'], p[f'lon{h}'] = lat * s, lon.copy()
        p[f'latS{h}'] = pd.Series(lat * s, index=ix)
        p[f'lonS{h}'] = pd.Series(lon, index=ix)
        p[f'latL{h}'], p[f'lonL{h}'] = list(lat * s), list(lon)
    p['latM'] = lat * [1, -1, 1]
    p['olat'], p['olon'] = np.array([36., 36., -35.5]), lon - .1
    p['e_arr'], p['n_arr'] = np.array([7.4e5, 7.5e5, 2.4e5]), np.array(
        [4e6, 4.01e6, 5.9e6])
    p['e_ser'] = pd.Series(p['e_arr'], index=ix)
    p['n_ser'] = pd.Series(p['n_arr'], index=ix)
    p['e_list'], p['n_list'] = list(p['e_arr']), list(p['n_arr'])
    p['de'], p['dn'] = np.array([10., -250., 4000.]), np.array([5., 70., -1.])
    p['de_int'] = np.array([10, -250, 4000])
    p['vi'] = np.array([3, -4])
    p['vf'] = np.array([3., -4.])
    p['vl'], p['vt'] = [1., 2.], (-2., .5)
    p['vS'] = pd.Series([1., -2.], index=['x', 'y'])
    p['V'] = np.array([[1., 2.], [-3., .5], [2., -2.]])
    p['Vi'] = np.array([[1, 2], [-3, 5], [2, -2]])
    p['VD'] = pd.DataFrame(p['V'], index=ix, columns=['dx', 'dy'])
    p['W'] = np.array([[4., -1.], [1., 7.], [3., .3]])
    p['x_int'], p['y_int'] = np.array([0, 30, -10]), np.array([5, -20, 40])
    p['x_ser'] = pd.Series([0., 30., -10.], index=ix)
    p['y_ser'] = pd.Series([5., -20., 40.], index=ix)
    p['tidx'] = gen.tindex(5, .5, 'UTC')
    for v in (0, 1):
        a = gen.hash01(n, 51 + v)
        p[f'a{v}'] = a
        p[f'ai{v}'] = np.round(a * 100).astype(int)
        p[f'as{v}'] = pd.Series(a, index=gen.tindex(n, .5, 'UTC'), name='q')
        p[f'ad{v}'] = pd.DataFrame(gen.hash01(3 * n, 53 + v).reshape(n, 3),
                                   index=gen.tindex(n, .5, 'UTC'),
                                   columns=ix)
        p[f'am{v}'] = gen.hash01(3 * n, 53 + v).reshape(n, 3).T.copy()
        p[f'idf{v}'] = (p[f'ad{v}'] * 100).round().astype(int)
        f = np.linspace(0, .5, 16)
        p[f'tfd{v}'] = pd.DataFrame(
            {c: np.exp(-2j * np.pi * f * (1 + v + i))
             for i, c in enumerate(ix)}, index=f)
        p[f'cohd{v}'] = pd.DataFrame(
            {c: .98 - .2 * f * (i + v) for i, c in enumerate(ix)}, index=f)
        p[f'null{v}'] = p[f'ad{v}'] * 900 - 300
        p[f'nulli{v}'] = (p[f'ad{v}'] * 900 - 300).round().astype(int)
    p['newf'] = np.array([.11, .02, .4])
    p['newfl'] = [.11, .02, .4]
    p['cent'], p['centi'] = np.array([0., 20.5, 50.]), np.array([0, 20, 50])
    p['centl'] = [0., 20.5, 50.]
    p['centD'] = pd.DataFrame({'dist': [0., 20.5, 50.]}, index=ix)
    p['plant'], p['planti'] = np.array([0., 1., 2., 1., 0.]), np.array(
        [0, 1, 2, 1, 0])
    p['xp'] = np.arange(-2., 3.)
    p['xpi'] = np.arange(-2, 3)
    p['freq'] = np.array([0., .01, .1])
    p['posn'] = p['pos0'].copy()
    p['posn'].loc['D', 'N'] = np.nan
    p['posx'] = p['pos1'].assign(zone=16., name='q')
    p['posr'] = p['pos1'].iloc[[3, 0, 4, 2, 1]] + [8., 3.]
    p['refrow'] = p['pos0'].loc['A']
    p['refll'] = p['ll0'].loc['B']
    p['cx'], p['cy'] = np.array([8., -1., 3., 5.]), np.array([1., 7., 3., -5.])
    p['cxs'] = pd.Series(p['cx'], index=list('wxyz'))
    p['cys'] = pd.Series(p['cy'], index=list('wxyz'))
    p['cxl'], p['cyl'] = list(p['cx']), list(p['cy'])
    day = p['days0'].index
    p['daysn'] = pd.Series(p['days0'].values, index=day)
    p['daysd'] = pd.DataFrame({'p': p['days1'].values}, index=day)
    p['daysl'] = pd.Series(p['days1'].values[:48 * 5],
                           index=day.tz_localize(None)[:48 * 5], name='l')
    p['g_arr'], p['c_arr'] = np.array([0., 300., 900.]), np.array(
        [0., 600., 500.])
    p['g_ser'] = pd.Series(p['g_arr'], index=ix)
    p['c_ser'] = pd.Series(p['c_arr'], index=ix)
    p['g_df'] = pd.DataFrame({'u': p['g_arr'], 'v': p['g_arr'][::-1]},
                             index=ix)
    p['g_int'] = pd.Series([0, 300, 900], index=ix)
    p['x_sig'] = np.arange(-2, 2, .25)
    p['cdf'] = np.linspace(.01, .99, 16)
    p['r'] = np.array([.2, .7, 0., 1.])
    p['cov'] = np.array([[1., .5, .2], [.5, 1., .4], [.2, .4, 1.]])
    p['ref_ids'] = ['A', 'B']
    p['dfs'] = [p['kt0'], p['kt1']]
    p['vecs'] = np.array([[8., 1.], [-2., 7.]])
    p['vecl'] = [(8., 1.), (-2., 7.)]
    p['scales_a'] = np.array([1., 2., 4.])
    p['size'] = (8, 6)
    p['cols'] = ['N']
    # the same data on another time base, shorter, or under other names
    for k in ('as0', 'as1', 'ad0', 'ad1', 'kt0', 'kt1', 'ts0', 'ts1'):
        a = p[k]
        slow = a.copy()
        slow.index = a.index[0] + 2 * (a.index - a.index[0])
        p[k + '_slow'] = slow
        late = a.copy()
        late.index = a.index + pd.Timedelta('3h')
        p[k + '_late'] = late
        p[k + '_short'] = a.iloc[:len(a) * 5 // 6].copy()
        if k[1] == 'd' or k[:2] == 'kt':
            ren = a.copy()
            ren.columns = list(a.columns[::-1])
            p[k + '_ren'] = ren
    for v in (0, 1):
        ren = p[f'pos{v}'].copy()
        ren.index = list(ren.index[::-1])
        p[f'pos{v}_ren'] = ren
    t = p['tidx']
    p['tidx_slow'] = t[0] + 2 * (t - t[0])
    p['tidx_late'] = t + pd.Timedelta('3h')
    p['tidx_short'] = t[:4]
    for v in (0, 1):
        p[f'days{v}_l'] = pd.Series(p[f'days{v}'].values,
                                    index=p['days0'].index +
                                    pd.Timedelta('2d'))
        p[f'days{v}_c'] = pd.Series(
            p[f'days{v}'].values, index=pd.date_range(
                '2020-03-01', periods=len(p['days0']), freq='1h', tz='UTC'))
        # the same frequencies, other ones, and fewer
        p[f'tfd{v}_w'] = p[f'tfd{v}'].set_axis(p[f'tfd{v}'].index * 2)
        p[f'cohd{v}_w'] = p[f'cohd{v}'].set_axis(p[f'cohd{v}'].index * 2)
    return p


def _build():
    from solarspatialtools import (cmv, field, signalproc as sp, spatial as s,
                                   stats as st, irradiance as ir)
    from solarspatialtools.dataio import hope_campaign as hope
    from solarspatialtools.synthirrad import cloudfield as cf, copula as co
    F = {}

    def add(fam, fn, *args, **kw):
        """Arguments that are texts starting with $ come from the pool."""
        def get(p, a):
            return p[a[1:]] if isinstance(a, str) and a[:1] == '$' else a

        def run(p):
            a = [get(p, x) for x in args]
            k = {n: get(p, x) for n, x in kw.items()}
            try:
                return fn(*a, **k)
            except (ValueError, KeyError, TypeError, IndexError,
                    AttributeError, AssertionError) as e:
                return 'raised ' + type(e).__name__
        run.label = f'{fn.__name__}({", ".join([str(a) for a in args] + [f"{k}={v}" for k, v in kw.items()])})'
        F.setdefault(fam, []).append(run)

    # geography
    for h in 'NS':
        for z in (None, 16, 17):
            add('geo', s.latlon2utm, 36. if h == 'N' else -36., -84., z)
            add('geo', s.latlon2utm, f'$lat{h}', f'$lon{h}', z)
        add('geo', s.latlon2utm, f'$latS{h}', f'$lonS{h}')
        add('geo', s.latlon2utm, f'$latL{h}', f'$lonL{h}')
        for z in (16, 17):
            for f in ('arr', 'ser', 'list'):
                add('geo', s.utm2latlon, f'$e_{f}', f'$n_{f}', z, h == 'S')
            add('geo', s.utm2latlon, 7.4e5, 4e6, z, south=h == 'S')
        o = 36. if h == 'N' else -36.
        for z in (None, 17):
            for f in ('', 'S', 'L'):
                add('geo', s.latlon2lcs, f'$lat{f}{h}', f'$lon{f}{h}', o, -84.,
                    z)
            add('geo', s.latlon2lcs, 35.9, -84.05, o, -84., z)
            add('geo', s.lcs2latlon, '$de', '$dn', o, -84., z)
            add('geo', s.lcs2latlon, '$de_int', '$dn', o, -84., z)
            add('geo', s.lcs2latlon, '$x_ser', '$y_ser', o, -84., z)
            add('geo', s.lcs2latlon, 12., -3., o, -84., z)
        for m in ('matlab', 'tmerc', 'nope'):
            add('geo', s.lla2flat, f'$lat{h}', f'$lon{h}', o, -84., m)
            add('geo', s.lla2flat, f'$latS{h}', f'$lonS{h}', o, -84.1, m)
    add('geo', s.latlon2utm, '$latM', '$lonN')
    add('geo', s.latlon2lcs, '$latN', '$lonN', '$olat', '$olon')
    # vectors
    for v in ('$vi', '$vf', '$vl', '$vt', '$vS'):
        for w in ('$vf', '$vt'):
            add('vec', s.dot, v, w)
        add('vec', s.magnitude, v)
        add('vec', s.unit, v)
        for th in (0., .3, 2.):
            add('vec', s.rotate_vector, v, th)
        for V in ('$V', '$Vi', '$VD'):
            add('vec', s.project_vectors, V, v)
        for x, y in (('$x_int', '$y_int'), ('$x_ser', '$y_ser'), ('$e', '$n')):
            add('vec', s.compute_vectors, x, y, v)
    add('vec', s.compute_vectors, '$x_ser', '$y_ser', '$refrow')
    for x, y in (('$x_int', '$y_int'), ('$x_ser', '$y_ser'), ('$e', '$n'),
                 (3, -4), (1., 0.)):
        add('vec', s.rect2pol, x, y)
        add('vec', s.pol2rect, x, y)
    for A in ('$V', '$Vi', '$W'):
        for B in ('$V', '$W'):
            add('vec', s.compute_intersection, A, B)
    for x, y in (('$x_int', '$y_int'), ('$x_ser', '$y_ser'), ('$e', '$n')):
        for t in ('$tidx', '$tidx'):
            for cs, cd in ((5., .4), (5, 2.), (0., 0.)):
                add('vec', s.spacetime_distances, x, y, t, cs, cd)
    # correlation
    for sc in ('coeff', 'energy', 'unbiased_energy', 'unbiased_coeff', 'none',
               'nope'):
        for a, b in (('$a0', '$a1'), ('$ai0', '$ai1'), ('$as0', '$as1'),
                     ('$as1', '$as0')):
            add('corr', sp.correlation, a, b, sc)
            if 's' in a:
                add('corr', sp.xcorr_delay, a, b, sc)
        for m in ('loop', 'fft'):
            for a, b in (('$ad0', '$ad1'), ('$idf0', '$idf1'), ('$ad0', '$am1'),
                         ('$ad1', '$ad0'), ('$ad0', '$ad0')):
                add('corr', sp.compute_delays, a, b, m, sc)
        for a, b in (('$ad0', '$ad1'), ('$am0', '$am1'), ('$a0', '$a1'),
                     ('$ad0', '$am1')):
            add('corr', sp._fftcorrelate, a, b, sc)
    # spectra
    for w in ('hamming', 'hann'):
        for d in ('linear', 'constant', False):
            for n, ov in ((3, .5), (4, 0.), (3, .25)):
                for a in ('$as0', '$ad1', '$idf0'):
                    add('psd', sp.averaged_psd, a, n, ov, w, d)
                for a, b in (('$as0', '$as1'), ('$as0', '$ad1'),
                             ('$ad0', '$as1'), ('$ad0', '$ad1')):
                    add('tf', sp.averaged_tf, a, b, n, ov, w, d)
    add('psd', sp.averaged_psd, '$ad0', 3, scaling='spectrum')
    # delays by transfer function
    for f in ('$newf', '$newfl'):
        for t in ('$tfd0', '$tfd1', '$tf0', '$wide1'):
            add('tfd', sp.interp_tf, f, t)
    for m in ('fit', 'diff', 'multi', 'nope'):
        for cl, fl in ((.6, .3), (None, None), (.95, None), (None, .2)):
            for v in (0, 1):
                add('tfd', sp.tf_delay, f'$tfd{v}', f'$cohd{v}', cl, fl, m)
                add('tfd', sp.tf_delay, f'$wide{v}', f'$wide{v}', cl, fl, m)
    for m in ('fit', 'multi', 'nope'):
        for x in (False, True):
            for a, b in (('$as0', '$as1'), ('$as0', '$ad1'), ('$ad0', '$as1'),
                         ('$ad0', '$ad1'), ('$ad1', '$ad0')):
                add('tfd', sp.compute_delays_tf, a, b, 3, .2, .5, m,
                    compute_xcorr=x)
    # filters
    for t in ('$tfd0', '$tf0', '$wide1'):
        for d in (0, 1.5, -2):
            add('filt', sp.apply_delay, t, d)
    for sh in ('square', 'gaussian', 'triangle', 'nope'):
        for c in ('$cent', '$centi', '$centl', '$centD'):
            for r, w, dx in ((0, None, 1), (7.5, 4, 1), (3, 5, 2)):
                add('filt', sp.get_1d_plant, c, r, w, sh, dx, 300)
    for pl in ('$plant', '$planti'):
        for x in ('$xp', '$xpi'):
            for v in (4., -3, 7):
                add('filt', sp.plant1d_to_camfilter, pl, x, v)
    for pos, ref in (('$pos0', '$refrow'), ('$pos1', '$refrow'),
                     ('$ll0', '$refll'), ('$ll1', '$refll'),
                     ('$posx', '$refrow')):
        for v in (9., -6):
            add('filt', sp.get_camfilter, pos, v, '$vt', ref, xmax=600)
            add('filt', sp.get_camfilter, pos, v, '$vl', ref, dx=2, xmax=600,
                width=6, shape='gaussian')
    for a in ('$as0', '$ts1', '$as1'):
        for t in ('$wide0', '$wide1', '$tf0'):
            add('filt', sp.apply_filter, a, t)
    for q in (1, 2., 40):
        add('filt', sp.get_marcosfilter, q)
        add('filt', sp.get_marcosfilter, q, '$freq')
    # statistics
    for f in (st.rmse, st.mse, st.squared_error, st.mae, st.absolute_error,
              st.mbe, st.bias_error):
        for a, b in (('$a0', '$a1'), ('$ai0', '$ai1'), ('$as0', '$as1'),
                     ('$ad0', '$ad1'), ('$ad1', '$ad0')):
            add('err', f, a, b)
    for f in (st.variability_score, st.darr):
        for a in ('$as0', '$ad1', '$idf0'):
            for tau, ma, pct in ((1, True, False), (3, True, False),
                                 (3, False, True), (1, False, True),
                                 (4, True, True)):
                add('var', f, a, tau, ma, pct)
    for a, b in (('$as0', '$as1'), ('$ad0', '$ad1'), ('$ad1', '$as0'),
                 ('$a0', '$a1')):
        for tau in (1, 4):
            for nm in (False, True):
                add('var', st.variability_index, a, b, tau, nm)
    for a in ('$days0', '$days1', '$daysn', '$daysd', '$daysl', '$ad0'):
        for n, q in (('2d', .5), ('3d', .9), ('5d', 0.)):
            add('quant', st.calc_quantile, a, n, q)
    for g, c in (('$g_arr', '$c_arr'), ('$g_ser', '$c_ser'),
                 ('$g_df', '$c_ser'), ('$g_int', '$c_ser'), (300., 600.),
                 (300, 0), ('$g_ser', 500), ('$g_df', 500.)):
        for m in (None, .8, 3):
            add('csi', ir.clearsky_index, g, c, **(
                {} if m is None else {'max_clearsky_index': m}))
    # quality control
    for v in (0, 1):
        for lv in (1, 2, 3):
            add('qc', hope.flag_qc, f'$kt{v}', f'$flag{1 - v}', lv)
            add('qc', hope.flag_qc, f'$nan{v}', f'$flag{v}', lv)
        for d in ('null', 'nulli', 'kt', 'idf'):
            add('qc', hope.null_qc, f'${d}{v}')
        for lim in (1, 4, 5):
            add('qc', hope.interp_nan, f'$nan{v}', lim)
            add('qc', hope.interp_nan, f'$kt{v}', lim)
    # copula
    for par in ('$par0', '$par1', co.DEFAULT_PARAMS):
        for sc in (True, False):
            for ng in (True, False):
                for v, (m, seed) in enumerate(((.75, 3), (.3, 8))):
                    add('cop', co.downscale, '$tidx', '$e', '$n', 5., .4, m,
                        par, seed, sc, ng)
                    if v:
                        add('cop', co.downscale, '$tidx', '$x_ser', '$y_ser',
                            9., 2., m, par, seed=seed, scale=sc, noneg=ng)
        add('cop', co.downscale_multihour, '$times', '$e', '$n', 5., .4,
            '$csi', par, 4)
        add('cop', co.downscale_multihour, '$tidx', '$e', '$n', '$spd', '$dir',
            '$csi', par, 4, noneg=False)
        add('cop', co.downscale_multihour, '$times', '$e', '$n', 5., '$dir',
            '$csi', par, 4, scale=False)
        for m in (.2, .8):
            add('cop', co._process_params, m, par)
            add('cop', co._solar_gmm, '$x_sig', m, par)
    add('cop', co.downscale_multihour, '$times', '$e', '$n', '$spd', '$dir',
        '$csi', '$pars', 4)
    add('cop', co._inverse_sample, '$x_sig', '$cdf', '$r')
    add('cop', co._copularnd_gaussian, 2, '$cov', 4)
    add('cop', co._copularnd_gaussian, 3, '$cov', 9)
    # cloud fields
    basic = getattr(cf, '_scale_field_basic', None)  # not in the tests
    for fld in ('$field0', '$field1'):
        for c in (0, .3, .7):
            add('cf', cf._calc_clear_mask, fld, c)
        for mk in ('$mask0', '$mask1'):
            for eg in ('$edge0', '$edge1'):
                for km in (.4, .8):
                    add('cf', cf._scale_field_lave, fld, mk, eg, km)
                    if basic:
                        add('cf', basic, fld, mk, eg, km)
                add('cf', cf._scale_field_lave, fld, mk, eg, .6, 1.2, .1, .9)
                if basic:
                    add('cf', basic, fld, mk, eg, .6, 1.2, .1, .98, True, .5)
        add('cf', cf._calc_wavelet_weights, fld)
        for x in ((10., 5.), (0., 0.), (3, 8)):
            add('cf', cf.get_positional_ts, x, fld, 5., 3)
    for mk in ('$mask0', '$mask1'):
        for sz, th in ((3, 0), (3, .2), (1, 0), (5, .4)):
            add('cf', cf._find_edges, mk, sz, th)
    for v in (0., 5., 90.):
        add('cf', cf._calc_vs_weights, '$scales_a', v)
    for a in ('$ts0', '$ts1'):
        for th in (.95, .6):
            add('cf', cf.get_timeseries_stats, a, th)
    # plant layouts
    for pos in ('$pos0', '$pos1', '$posx', '$posn'):
        for m in ('$remap0', '$remap1'):
            for c in (None, '$cols'):
                add('field', field.remap_positions, pos, m, c)
    for a in ('$remap0', '$remap1'):
        for b in ('$remap0', '$remap1'):
            add('field', field.cascade_remap, a, b)
    for a in ('$pos0', '$pos1', '$posx'):
        for b in ('$pos0', '$posr', '$posn', '$posx'):
            add('field', field.assign_positions, a, b)
    # cloud motion and prediction
    for x, y in (('$cx', '$cy'), ('$cxs', '$cys'), ('$cxl', '$cyl'),
                 ('$cy', '$cx')):
        add('motion', cmv.optimum_subset, x, y, 2)
    for v in (0, 1):
        for m in ('jamaly', 'gagne'):
            for r in ('A', '$ref_ids', None):
                for b in ('xcorr', 'tf'):
                    if r is None and b == 'tf':
                        continue
                    add('motion', cmv.compute_cmv, f'$kt{v}', '$pos0', r, m,
                        delay_backend=b)
        add('motion', cmv.compute_cmv, f'$kt{v}', '$pos1', 'B', 'jamaly',
            f'$opt{v}')
        add('motion', cmv.compute_cmv, f'$kt{v}', '$pos1', 'B', 'gagne',
            f'$optg{v}')
        add('motion', cmv.compute_cmv, f'$kt{v}', '$pos1', 'B', 'gagne',
            f'$opt{v}')
    for k in EXTREME:
        add('motion', cmv.compute_cmv, '$kt0', '$pos1', 'B', 'jamaly', f'$x{k}')
    for ref in ('B', ['A', 'D']):
        add('motion', cmv.compute_cmv, '$kt0', '$pos1', ref, 'gagne',
            '$xktlim')
    for md in ('coherence', 'global_coherence', 'distance', 'all', 'nope'):
        for cv in ('$vecs', '$vecl'):
            add('motion', field.compute_predicted_position, '$dfs', '$pos0',
                'A', cv, md, 3, 4, .3, .1)
    for m in ('fit', 'multi'):
        add('motion', field.compute_predicted_position, '$dfs', '$posx', 'B',
            '$vecs', delay_method=m)
        add('motion', field.compute_delays, '$kt0', 'B', 4, .3, .1, m)
    # the same values with other times, names or lengths
    for b in ('', '_slow', '_late', '_short'):
        for i, j in ((0, 1), (1, 0)):
            add('base', sp.xcorr_delay, f'$as{i}{b}', f'$as{j}{b}')
            add('base', sp.compute_delays, f'$ad{i}{b}', f'$ad{j}{b}', 'fft')
            add('base', sp.averaged_psd, f'$as{i}{b}', 3, .5)
            add('base', sp.averaged_tf, f'$as{i}{b}', f'$ad{j}{b}', 3, .5)
            add('base', sp.compute_delays_tf, f'$as{i}{b}', f'$ad{j}{b}', 3,
                .5, .5)
            add('base', sp.apply_filter, f'$as{i}{b}', f'$tf{j}')
            add('base', st.variability_score, f'$as{i}{b}', 3)
            add('base', st.darr, f'$as{i}{b}', 3)
            add('base', st.variability_index, f'$as{i}{b}', f'$as{j}{b}', 3)
            add('base', cf.get_timeseries_stats, f'$ts{i}{b}', .6)
        for x, y in (('$e', '$n'), ('$n', '$e')):
            add('base', s.spacetime_distances, x, y, f'$tidx{b}', 5., .4)
            add('base', co.downscale, f'$tidx{b}', x, y, 5., .4, .6, '$par0',
                3)
        for v in (0, 1):
            add('base', co.downscale_multihour, f'$tidx{b}', '$e', '$n', 5.,
                .4, '$csi', f'$par{v}', 4)
            add('base motion', cmv.compute_cmv, f'$kt{v}{b}', '$pos0', 'A')
            add('base motion', cmv.compute_cmv, f'$kt{v}{b}', '$pos0', 'A',
                'gagne')
            add('base motion', field.compute_delays, f'$kt{v}{b}', 'A', 4, .3,
                .1)
    for v in (0, 1):
        for b in ('', '_l', '_c'):
            add('base', st.calc_quantile, f'$days{v}{b}', '2d', .5)
        for b in ('', '_w'):
            add('base', sp.tf_delay, f'$tfd{v}{b}', f'$cohd{v}{b}')
            add('base', sp.interp_tf, '$newf', f'$tfd{v}{b}')
            add('base', sp.apply_delay, f'$tfd{v}{b}', 3)
        for b in ('', '_ren'):
            add('base', sp.compute_delays, f'$ad{v}', f'$ad{1 - v}{b}')
            add('base', sp.averaged_tf, '$as0', f'$ad{v}{b}', 3, .5)
            add('base', st.darr, f'$ad{v}{b}')
            add('base motion', cmv.compute_cmv, f'$kt{v}{b}', '$pos0', 'A')
            add('base motion', cmv.compute_cmv, f'$kt{v}', f'$pos0{b}', 'A')
            add('base motion', field.compute_delays, f'$kt{v}{b}', 'B', 4, .3,
                .1)
            add('base', field.remap_positions, f'$pos{v}{b}', '$remap0')
            add('base', field.assign_positions, '$pos0', f'$pos{v}{b}')
    return F


def edit(p):
    """The caller alters every argument in place: same objects, shapes,
    labels and types, other contents."""
    seen = set()

    def flip(x):
        if id(x) in seen:
            return x
        seen.add(id(x))
        if isinstance(x, pd.DataFrame):
            for c in x.columns:
                if x[c].dtype.kind in 'fciu':
                    x[c] = x[c].values[::-1].copy()
        elif isinstance(x, pd.Series):
            x.iloc[:] = x.values[::-1].copy()
        elif isinstance(x, np.ndarray):
            x[...] = x[::-1].copy()
        elif isinstance(x, dict):
            for k in x:
                x[k] = x[k] * .9 if isinstance(x[k], float) else flip(x[k])
        elif isinstance(x, list):
            if all(isinstance(v, (int, float)) for v in x):
                x[:] = [v * .9 if isinstance(v, float) else v for v in x]
            elif all(isinstance(v, (tuple, str)) for v in x):
                x[:] = x[::-1]
            else:
                for v in x:
                    flip(v)
        return x
    for k in p:
        flip(p[k])
    return p


_CACHE = {}


def families():
    if not _CACHE:
        _CACHE.update(_build())
    return _CACHE


def call(fam, i, p):
    with contextlib.redirect_stdout(io.StringIO()):
        return families()[fam][i](p)


def image(p):
    """Exact image; like menu.image, and the order of a dictionary."""
    return menu.image(p)
