"""C19: several hours at once against one hour after the other."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C19'
ASSUME = ['a fixed seed, which every hour uses; downscaling of one hour is '
          'the subject of C18']

SPD = [5.0, 12.0, 8.5, 3.0] * 6
DIR = [0.4, 2.0, -1.0, 4.5] * 6
CSI = [0.75, 0.45, 0.9, 0.3, .6, .8, .55] * 4


def param(i):
    from solarspatialtools.synthirrad.copula import DEFAULT_PARAMS
    p = {k: (list(v) if isinstance(v, list) else v)
         for k, v in DEFAULT_PARAMS.items()}
    p['corr_quadr'] = [0.0043, 0.02, 0.001, 0.1][i % 4]
    p['comp'][0] -= 0.05 * (i % 4)
    p['sdevClear'][0] += 0.03 * (i % 5)
    return p


def hour(i, nt, tz, same_len):
    n = nt if same_len else nt + i
    return gen.tindex(n, [1., 1., 2., 5.][i % 4] if not same_len else 1., tz,
                      pd.Timestamp('2020-06-01 10:00:00') +
                      pd.Timedelta(hours=i))


def shared(kind, values, h):
    """-> (argument, value of every hour)"""
    one = values[1]
    if kind == 'float':
        return one, [one] * h
    if kind == 'int':
        return int(one), [int(one)] * h
    if kind == 'list':
        return values[:h], values[:h]
    if kind == 'tuple':
        return tuple(values[:h]), values[:h]
    if kind == 'array':
        return np.array(values[:h]), values[:h]
    if kind == 'series':
        return pd.Series(values[:h]), values[:h]
    if kind == 'one':
        return [one], [one] * h
    if kind == 'same':     # a list whose entries happen to be equal
        return [one] * h, [one] * h
    if kind == 'numpy int':
        return np.int64(one), [int(one)] * h
    if kind == 'numpy single':
        return np.float32(one), [float(np.float32(one))] * h
    if kind == 'zero-dim':
        return np.array(one), [one] * h
    if kind == 'resting':      # an hour without wind
        v = [0. if i == 1 else values[i] for i in range(h)]
        return v, v
    raise ValueError(kind)


def run(case, rec):
    from solarspatialtools.synthirrad.copula import downscale, \
        downscale_multihour
    h, nt = case['hours'], 4
    tol = dict(rtol=1e-9, atol=1e-9)
    if 'numpy single' in (case['spd'], case['dir']):
        tol = dict(rtol=1e-4, atol=1e-4)
    e = np.array([0., 30., -10.])[:case['sites']]
    n = np.array([0., 5., 40.])[:case['sites']]
    for tk, pk, ck in itertools.product(case['times'], case['params'],
                                        ('list', 'array', 'same')):
        T = [hour(i, nt, case['tz'], tk == 'list same') for i in range(h)]
        times = T if tk.startswith('list') else tuple(T) if tk == 'tuple' \
            else T[0]
        if tk == 'shared':
            T = [T[0]] * h
        P = [param(i) for i in range(h)]
        params = P if pk == 'list' else tuple(P) if pk == 'tuple' else P[0]
        if pk == 'shared':
            P = [P[0]] * h
        spd, S = shared(case['spd'], SPD, h)
        dr, D = shared(case['dir'], DIR, h)
        M = [CSI[1]] * h if ck == 'same' else CSI[:h]
        csi = np.array(M) if ck == 'array' else list(M)
        for scale, noneg in itertools.product((True, False), repeat=2):
            kw = dict(seed=case['seed'], scale=scale, noneg=noneg)
            args = [times, e, n, spd, dr, csi, params]
            snap = gen.snapshot(args)
            rec.step(1 + h)
            got = downscale_multihour(*args, **kw)
            rec.same(gen.snapshot(args), snap, 'the arguments')
            want = np.concatenate([
                downscale(T[i], e, n, S[i], D[i], M[i], P[i], **kw)
                for i in range(h)])
            rec.close(got, want, f'{tk} {pk} {ck} {scale} {noneg}', **tol)
            rec.outcome([round(float(v), 6) for v in want[:, 0]])
        rec.step(2)
        got = downscale_multihour(*args, case['seed'])
        want = np.concatenate([downscale(T[i], e, n, S[i], D[i], M[i], P[i],
                                         case['seed']) for i in range(h)])
        rec.close(got, want, f'defaults {tk} {pk} {ck}', **tol)


def run_refuse(case, rec):
    from solarspatialtools.synthirrad.copula import downscale_multihour
    h = case['hours']
    e, n = np.array([0., 30.]), np.array([0., 5.])
    good = dict(times=[hour(i, 3, None, True) for i in range(h)], e_pos=e,
                n_pos=n, cloud_spd=SPD[:h], cloud_dir=DIR[:h],
                mean_csi=CSI[:h], params=[param(i) for i in range(h)], seed=1)
    rec.step()
    downscale_multihour(**good)
    for key in ('times', 'cloud_spd', 'cloud_dir', 'params'):
        for wrong in (h - 1, h + 1):
            if wrong < 1 or (wrong == 1 and key in ('cloud_spd', 'cloud_dir')):
                continue
            for others in ('list', 'shared'):
                a = dict(good)
                if others == 'shared':
                    a.update(times=good['times'][0], cloud_spd=7.0,
                             cloud_dir=1.0, params=good['params'][0])
                src = {'times': [hour(i, 3, None, True) for i in range(4)],
                       'cloud_spd': SPD, 'cloud_dir': DIR,
                       'params': [param(i) for i in range(4)]}[key]
                a[key] = src[:wrong]
                rec.step()
                rec.raises(ValueError, lambda: downscale_multihour(**a),
                           f'{wrong} {key} for {h} hours')
                rec.outcome((key, wrong, others))


def spaces(tier):
    deep = tier == 'thorough'
    kinds = ['float', 'int', 'list', 'tuple', 'array', 'one', 'same', 'series',
             'resting']
    cases = [dict(hours=h, sites=s, spd=a, dir=b, tz=tz, seed=seed,
                  times=['shared', 'list', 'list same', 'tuple'],
                  params=['shared', 'list', 'tuple'])
             for h in ((1, 2, 3, 4) if deep else (1, 2, 3))
             for s in ((1, 2, 3) if deep else (2,))
             for a, b in [(a, b) for a in kinds for b in kinds]
             + [(a, b) for k in ('numpy int', 'numpy single', 'zero-dim')
                for a, b in ((k, 'list'), ('array', k), (k, 'float'), (k, k))]
             for seed, tz in (((7, None), (0, 'UTC')) if deep else ((7, 'UTC'),))]
    cases += [dict(hours=24, sites=2, spd=a, dir=b, tz='UTC', seed=5,
                   times=['list', 'tuple'], params=['shared', 'list'])
              for a, b in (('list', 'list'), ('float', 'array'),
                           ('series', 'float'))]
    return [Space('mixes', cases, run, 'all mixes of shared and per-hour '
                  'arguments of up to 3 (4) hours'),
            Space('refuse', [dict(hours=h) for h in (1, 2, 3)], run_refuse,
                  'all single wrong lengths')]
