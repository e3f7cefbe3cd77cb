"""C22: histories of conversions of campaign data, files in scratch folders.

Explicit-state search: a state is the content of the source folder and of the
target; operations add or remove source files and convert.  After every
operation the target is compared with the model (a plain dictionary)."""
import collections
import contextlib
import io
import itertools
import json
import math
import os
import shutil
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C22'
ASSUME = [
    'all source files of a HOPE data set list the same stations (in any order)',
    'csv conversion: every sensor covers the span of the first one, time '
    'stamps within a file increase; the target does not exist yet',
]

BASE = 1372636800      # 2013-07-01, UTC


def nc_file(path, ids, secs, vals, flags, vt='f4', ft='i1', it='i4', tt='f8',
            fill=False):
    import netCDF4
    d = netCDF4.Dataset(path, 'w')
    d.createDimension('station', len(ids))
    d.createDimension('time', len(secs))
    for n, t, v in (('station_id', it, ids),
                    ('lat', 'f8', [50 + i / 128 for i in ids]),
                    ('lon', 'f8', [6 + i / 64 for i in ids])):
        d.createVariable(n, t, ('station',))[:] = v
    d.createVariable('time', tt, ('time',))[:] = secs
    for n, t, v in (('rsds', vt, vals), ('rsds_flag', ft, flags)):
        d.createVariable(n, t, ('time', 'station'), fill_value=(
            -999. if n == 'rsds' else 4) if fill else None)[:] = v
    d.close()


def content(k, ids, nt):
    """Values, flags and times of the k-th file (halves, exact in f4)."""
    secs = [BASE + 1000 * k + t for t in range(nt)]
    vals = [[100. * k + 10 * t + i / 2 for i in ids] for t in range(nt)]
    flags = [[1 + (k + t + i) % 4 for i in ids] for t in range(nt)]
    if k == 1:
        vals[0][0] = -999.0
    return secs, vals, flags


def rows_of(df):
    return {int(c): [(int(t.value // 10**9), float(v))
                     for t, v in df[c].items()] for c in df.columns}


def as_rows(files, what):
    """files: list of (k, ids, nt) in file-name order"""
    out = {}
    for k, ids, nt in files:
        secs, vals, flags = content(k, ids, nt)
        src = vals if what == 'data' else flags
        for j, i in enumerate(ids):
            out.setdefault(i, []).extend(
                (s, float(src[t][j])) for t, s in enumerate(secs))
    return out


def unix(df):
    ix = df.index
    return [int(round((t - pd.Timestamp(0, tz='UTC')).total_seconds()))
            for t in ix]


def check_h5(rec, path, files, what):
    rec.step()
    ids = set(files[0][1])
    for key in ('data', 'flag'):
        df = pd.read_hdf(path, key)
        rec.same(str(df.index.tz), 'UTC', f'{key}: time zone, {what}')
        rec.same({int(c) for c in df.columns}, ids, f'{key}: stations, {what}')
        got = {int(c): list(zip(unix(df), [float(v) for v in df[c]]))
               for c in df.columns}
        rec.same(got, as_rows(files, key), f'{key} {what}')
    ll = pd.read_hdf(path, 'latlon')
    rec.same(list(ll.columns), ['lat', 'lon'], 'position columns')
    rec.same({int(i): (float(r['lat']), float(r['lon']))
              for i, r in ll.iterrows()},
             {i: (50 + i / 128, 6 + i / 64) for i in ids}, f'positions {what}')


def run_parse(case, rec):
    """One file, every layout."""
    from solarspatialtools.dataio.hope_campaign import parse_file
    d = rec.tmp()
    p = os.path.join(d, 'x.nc')
    odd = [None, 20000.5, -5.5, 0., 1400.25, 2. ** 40, -999., 2. ** -20]
    for ids, v in itertools.product(itertools.permutations(case['ids']), odd):
        secs, vals, flags = content(case['k'], ids, case['nt'])
        if v is not None:
            vals[-1][-1] = v
        secs = [s + case['frac'] * j for j, s in enumerate(secs)]
        nc_file(p, ids, secs, vals, flags, case['vt'], case['ft'], case['it'],
                fill=case['fill'])
        rec.step()
        data, flag, st = parse_file(p)
        want = pd.to_datetime([int(round(s * 1e6)) for s in secs],
                              unit='us').tz_localize('UTC')
        for df, v, n in ((data, vals, 'data'), (flag, flags, 'flag')):
            rec.same([int(c) for c in df.columns], list(ids), f'{n} stations')
            rec.same(str(df.index.tz), 'UTC', f'{n} time zone')
            rec.true(np.all(np.abs((df.index - want).total_seconds()) < 2e-6),
                     f'{n} times {df.index}')
            rec.close(df.values, v, f'{n} values {ids}')
        rec.same([int(i) for i in st.index], list(ids), 'station index')
        rec.close(st[['lat', 'lon']].values,
                  [[50 + i / 128, 6 + i / 64] for i in ids], 'positions')
        rec.same(list(st.columns), ['lat', 'lon'], 'position columns')
        rec.outcome(ids)
        os.remove(p)


# names chosen so that creation order, name order and numeric order differ
NAMES = {'a': ('d_2013-06.nc', (7, 3), 2), 'b': ('d_2013-05.nc', (7, 3), 3),
         'c': ('d_10.nc', (3, 7), 1), 'd': ('d_9.nc', (7, 3), 1)}
OTHERS = {'x': 'readme.txt', 'y': 'd_2013-05.nc.bak', 'z': 'old.h5',
          'n': 'd_1.nc4', 'u': 'nc', 'm': 'D_3.NC'}


def run_history(case, rec):
    """All operation sequences up to the depth."""
    from solarspatialtools.dataio.hope_campaign import dataset_to_h5
    root = rec.tmp()
    seen = set()
    files = case['files']
    todo = collections.deque([((), None)])      # (source set, target content)
    tree = {}

    def build(hist):
        d = os.path.join(root, 'run')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'src'))
        src, tgt = set(), None
        for op in hist:
            src, tgt = apply(d, src, tgt, op)
        return d, src, tgt

    def target(d):
        p = os.path.join(d, 'out.h5')
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            return f.read()

    def apply(d, src, tgt, op):
        kind, arg = op
        s = os.path.join(d, 'src')
        out = os.path.join(d, 'out.h5')
        if kind == 'add':
            if arg in NAMES:
                name, ids, nt = NAMES[arg]
                k = 'abcd'.index(arg)
                nc_file(os.path.join(s, name), ids, *content(k, ids, nt),
                        fill=arg in 'bc')
            else:
                with open(os.path.join(s, OTHERS[arg]), 'w') as f:
                    f.write('not a data file')
            return src | {arg}, tgt
        if kind == 'del':
            name = NAMES[arg][0] if arg in NAMES else OTHERS[arg]
            os.remove(os.path.join(s, name))
            return src - {arg}, tgt
        use = [(('abcd').index(a), NAMES[a][1], NAMES[a][2])
               for a in sorted((x for x in src if x in NAMES),
                               key=lambda a: NAMES[a][0])]
        before = target(d)
        listing = sorted(os.listdir(s))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if kind == 'convert' and before is not None:
                rec.step()
                rec.raises(ValueError, lambda: dataset_to_h5(
                    s, out, verbose=arg), 'existing target')
                rec.true(target(d) == before, 'refused target is changed')
                use = tgt
            elif kind == 'convert':
                rec.step()
                dataset_to_h5(s, out, verbose=arg)
            else:
                if not arg and before is not None:
                    # something else that was stored in the file
                    pd.DataFrame({'E': [1.]}).to_hdf(out, key='utm')
                rec.step()
                dataset_to_h5(s, out, overwrite=True, verbose=arg)
                if os.path.exists(out):
                    with pd.HDFStore(out, 'r') as h:
                        rec.same(sorted(h.keys()), ['/data', '/flag',
                                 '/latlon'] if use else [], 'contents')
        if not arg:
            rec.same(buf.getvalue(), '', 'output while silent')
        rec.same(sorted(os.listdir(s)), listing, 'the source folder')
        if not use:       # nothing to convert, so nothing may be left
            rec.true(target(d) is None, f'a target without any source file, '
                     f'{listing}')
            use = None
        elif kind == 'over' or before is None:
            check_h5(rec, out, use, f'from {listing}')
        rec.outcome([listing, repr(use)])
        return src, use

    start = ()
    seen.add((frozenset(), 'none'))
    todo = collections.deque([(start, frozenset(), None)])
    while todo:
        hist, src, tgt = todo.popleft()
        if len(hist) >= case['depth']:
            continue
        ops = [('add', a) for a in files if a not in src]
        if hist and hist[-1][0] != 'add':
            ops += [('del', a) for a in files if a in src]
        if any(a in NAMES for a in src):
            ops += [('convert', False)]
        if any(a in NAMES for a in src) or tgt:
            ops += [('over', len(hist) % 2 == 0)]
        for op in ops:
            # adding in any order is one state, but try both orders of pairs
            d, s, t = build(hist + (op,))
            canon = (frozenset(s), repr(t))
            if canon not in seen or op[0] in ('convert', 'over'):
                new = canon not in seen
                seen.add(canon)
                if new:
                    rec.state()
                    todo.append((hist + (op,), frozenset(s), t))


CSV = ('Date', 'Time', 'G1 (W/m2)', 'G2 (W/m2)')


def run_csv(case, rec):
    from solarspatialtools.dataio.nrcan_data import process_files
    d = rec.tmp()
    src = os.path.join(d, 'src')
    os.makedirs(src)
    span = case['span']          # in units of 10 ms
    sensors = case['sensors']
    model = {}
    for k, (name, ticks) in enumerate(sensors):
        # ticks in ms after the start, first one in the first bin
        ticks = [0 if k == 0 else case['lead']] + list(ticks) + [span * 10]
        g1 = [500.25 + 10 * k + j for j in range(len(ticks))]
        g2 = [20.5 + 100 * k - j for j in range(len(ticks))]
        model[name] = (ticks, g1, g2)
        with open(os.path.join(src, f'20140717_{name}.csv'), 'w') as f:
            f.write(','.join(CSV) + '\n')
            for t, a, b in zip(ticks, g1, g2):
                s = 36000 * 1000 + 59 * 1000 + 950 + t
                f.write(f'2014-07-17,{s // 3600000:02d}:'
                        f'{s // 60000 % 60:02d}:{s // 1000 % 60:02d}.'
                        f'{s % 1000:03d},{a},{b}\n')
    with open(os.path.join(src, 'notes.txt'), 'w') as f:
        f.write('no data\n')
    ll = os.path.join(src if case['inside'] else d, 'latlon_Varennes.csv')
    with open(ll, 'w') as f:
        f.write('Site,Latitude,Longitude\n')
        for k, (name, _) in enumerate(sensors):
            f.write(f'{name},{45 + k / 8},{-73 - k / 16}\n')
    out = os.path.join(d, 'out.h5')
    rec.step()
    process_files(src, ll, out)
    t0 = pd.Timestamp('2014-07-17 10:00:59.950', tz='Etc/GMT+5')
    names = [n for n, _ in sensors]
    for key, which in (('data', 1), ('data_tilt', 2)):
        df = pd.read_hdf(out, key)
        rec.same(sorted(df.columns), sorted(names), f'{key} sensors')
        rec.same(str(df.index.tz), 'Etc/GMT+5', f'{key} time zone')
        rec.same([int(round((t - t0).total_seconds() * 1000))
                  for t in df.index], [10 * i for i in range(span + 1)],
                 f'{key} time base')
        for n in names:
            ticks, vals = model[n][0], model[n][which]
            want = []
            for i in range(span + 1):
                j = [q for q, t in enumerate(ticks) if t <= 10 * i]
                want.append(vals[j[-1]] if j else math.nan)
            rec.close(df[n].values.astype(float), want, f'{key} of {n}, '
                      f'ticks {ticks}')
            rec.outcome(want)
    pos = pd.read_hdf(out, 'latlon')
    rec.same({i: (float(r['lat']), float(r['lon'])) for i, r in pos.iterrows()},
             {n: (45 + k / 8, -73 - k / 16) for k, n in enumerate(names)},
             'positions')


def run_many(case, rec):
    """Many files with many stations."""
    from solarspatialtools.dataio.hope_campaign import dataset_to_h5
    d = rec.tmp()
    s, out = os.path.join(d, 'src'), os.path.join(d, 'out.h5')
    os.makedirs(s)
    ids = [3 + i * 11 % case['stations'] for i in range(case['stations'])]
    use = []
    order = sorted(range(case['files']), key=lambda k: k * 5 % 7)
    for k in order:
        mine = ids[k % 4:] + ids[:k % 4]
        nc_file(os.path.join(s, f'day_{k:03d}.nc'), mine,
                *content(k, mine, case['nt']), fill=k % 2)
        use.append((k, mine, case['nt']))
    rec.step()
    with contextlib.redirect_stdout(io.StringIO()):
        dataset_to_h5(s, out)
    check_h5(rec, out, sorted(use), f'{case}')
    rec.outcome(case['files'])


def run_list(case, rec):
    """The file listing, all subsets of a menu of names."""
    from solarspatialtools.dataio.iotools import getfiles, ensurepath
    d = rec.tmp()
    menu = ['b.nc', 'a.nc', 'c.txt', 'a.nc.gz', '10.nc', '9.nc', 'nc', 'B.NC',
            '.nc', 'x.csv', 'd.e.nc']
    lo = case['part']
    for m in range(1 << len(menu)):
        if m % 16 != lo:
            continue
        names = [n for i, n in enumerate(menu) if m >> i & 1]
        p = os.path.join(d, f'{m}')
        rec.step(5)
        ensurepath(p)
        ensurepath(p)
        for n in names:
            with open(os.path.join(p, n), 'w') as f:
                f.write(n)
        nc = [n for n in names if n.endswith('.nc') and n != '.nc']
        rec.same(getfiles(p, ext='.nc', sort=True), sorted(nc), 'sorted .nc')
        rec.same(sorted(getfiles(p, '.nc', False)), sorted(nc), '.nc')
        rec.same(getfiles(p), sorted(names), 'everything')
        rec.same(sorted(getfiles(p, sort=False)), sorted(names), 'unsorted')
        rec.same(getfiles(p, ext='.csv'), [n for n in names if n == 'x.csv'],
                 '.csv')
        rec.outcome(names)


def spaces(tier):
    deep = tier == 'thorough'
    parse = [dict(ids=ids, k=k, nt=nt, vt=vt, ft=ft, it=it, frac=fr,
                  fill=fill)
             for ids in ([4], [12, 3], [5, 1, 9]) for k in (0, 1)
             for nt in (1, 4) for vt in ('f4', 'f8') for ft in ('i1', 'i2')
             for it in ('i4', 'i2') for fr in (0, 0.125)
             for fill in (False, True)]
    hist = [dict(files=list(f), depth=dep)
            for f, dep in ((('ab', 5), ('ax', 5), ('bcy', 5), ('cdz', 5),
                            ('anu', 5), ('dm', 5))
                           + ((('abc', 6), ('abcdx', 6), ('cd', 7)) if deep
                              else (('abc', 5),)))]
    ticks = [[], [10], [13], [20, 30], [5, 7, 9], [25, 27], [1, 49], [50]]
    csv = [dict(span=6, sensors=[['VAR01', a], ['VAR02', b]], lead=lead,
                inside=ins)
           for a in ticks for b in ticks for lead in (0, 3)
           if not b or b[0] > lead
           for ins in ((False, True) if deep else (False,))]
    csv += [dict(span=6, sensors=[['VAR03', a], ['VAR01', ticks[2]],
                                  ['ZZ', b]], lead=0, inside=True)
            for a in ticks for b in ticks[1:4]]
    csv += [dict(span=s, sensors=[['V1', a]], lead=0, inside=False)
            for s in (6, 8) for a in ticks]
    return [
        Space('parse', parse, run_parse, 'station orders x sizes x types'),
        Space('history', hist, run_history, 'all histories of adding, removing '
              'and converting up to depth 5 (7)', chunk=1),
        Space('many', [dict(files=15, stations=60, nt=4),
                       dict(files=2, stations=98, nt=900),
                       dict(files=40, stations=2, nt=3)], run_many,
              'up to 40 files, 98 stations'),
        Space('csv', csv, run_csv, 'all pairs of sampling patterns'),
        Space('list', [dict(part=i) for i in range(16)], run_list,
              'all subsets of eleven file names'),
    ]
