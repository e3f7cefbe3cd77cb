"""C27: histories of building a campaign data set from the command line.

Explicit-state search: a state is the content of the target folder together
with what the server offers; operations are invocations of the command line
tool (every combination of its switches and every sequence of answers to its
questions), new files on the server, files removed by the user, and a server
that fails.  After every operation the folder is compared with the model."""
import builtins
import collections
import contextlib
import io
import math
import os
import runpy
import shutil
import ssl
import sys
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc.c21 import fill
from mc.c22 import BASE, nc_file, unix
from mc.c23 import Net

PROP = 'C27'
ASSUME = [
    'all source files list the same stations; the server lists its files in '
    'the documented form (see C23)',
    'missing samples are surrounded by valid ones of the same file (otherwise '
    'see C21)',
    'an interrupted conversion is not part of the histories',
]
IDS = (7, 3)
NT = 9
FILES = {'a': 'x_2013-06.nc', 'b': 'x_2013-05.nc'}
MODES = ('null', 'interp', 'flag')


def source(k):
    """Times, values and flags of a source file: short and long gaps of the
    hidden value, samples around the limits, all flags."""
    secs = [BASE + 100 * k + t for t in range(NT)]
    v = [[100. * (k + 1) + 10 * t + (t * t) % 7, 500. - t * t - k]
         for t in range(NT)]
    if k == 0:
        v[2][0] = v[3][0] = -999.
        v[6][0] = -99.
        v[8][1] = -999.
    else:
        for t in range(1, 7):
            v[t][1] = -999.
        v[4][0] = -101.
    f = [[1 + (t + j + k) % 4 for j in range(2)] for t in range(NT)]
    return secs, v, f


class Model:
    def __init__(self):
        self.offer = ('a',)       # files on the server
        self.nc = ()              # files that were fetched
        self.h5 = None            # its source files
        self.qc = {}              # mode -> source files
        self.meta = ()

    def copy(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        m.qc = dict(self.qc)
        return m

    def key(self):
        return repr((self.offer, self.nc, self.h5, sorted(self.qc.items()),
                     self.meta))


def order(srcs):
    return sorted(srcs, key=lambda s: FILES[s])


def expected(srcs, mode):
    """station -> [(time, value)], and flags"""
    data, flag = {}, {}
    for j, i in enumerate(IDS):
        t, v, f = [], [], []
        for s in order(srcs):
            secs, vals, flags = source('ab'.index(s))
            t += secs
            v += [r[j] for r in vals]
            f += [r[j] for r in flags]
        if mode in ('null', 'interp'):
            v = [math.nan if x < -100 else x for x in v]
        if mode == 'interp':
            v = fill(v, 5)
        if mode == 'flag':
            v = [math.nan if g >= 2 else x for x, g in zip(v, f)]
        data[i], flag[i] = (t, v), (t, f)
    return data, flag


class World:
    def __init__(self, rec, dataset):
        self.rec, self.ds = rec, dataset
        self.root = rec.tmp()
        self.nets = {}
        import solarspatialtools.dataio.hope_campaign as hc
        self.urls = hc.URLS[dataset.upper()]
        self.bytes = {}
        for s, name in FILES.items():
            p = os.path.join(self.root, name)
            nc_file(p, IDS, *source('ab'.index(s)))
            with open(p, 'rb') as f:
                self.bytes[name] = f.read()

    def path(self, url):
        return url.split('//', 1)[1].split('/', 1)[1]

    def net(self, offer):
        host = self.urls['wget'].rsplit('/', 1)[0]
        names = [FILES[s] for s in offer]
        net = Net({}, b'', os.path.join(self.root, 'log'))
        net.paths = {'/' + self.path(f'{host}/{n}'): self.bytes[n]
                     for n in names}
        net.paths['/' + self.path(self.urls['wget'])] = ''.join(
            f'wget -c {host}/{n}\n' for n in names).encode()
        net.paths['/' + self.path(self.urls['meta'])] = b'<meta/>'
        return net

    def invoke(self, net, args, answers, down=False):
        """-> (exception or None, number of questions)"""
        asked = [0]
        left = list(answers)

        def ask(prompt=''):
            asked[0] += 1
            if not left:
                raise EOFError('no answer')
            return left.pop(0)
        old = sys.argv, builtins.input, ssl.SSLContext.wrap_socket
        sys.argv = ['hope_campaign.py'] + args
        builtins.input = ask
        ssl.SSLContext.wrap_socket = lambda self, sock, **k: sock
        fault = None
        if down:
            fault = ('/' + self.path(self.urls['wget']), '503', 0)
        try:
            with net.up(fault), contextlib.redirect_stderr(io.StringIO()), \
                    warnings.catch_warnings():
                warnings.simplefilter('ignore')
                runpy.run_module('solarspatialtools.dataio.hope_campaign',
                                 run_name='__main__')
            return None, asked[0]
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            return e, asked[0]
        finally:
            sys.argv, builtins.input, ssl.SSLContext.wrap_socket = old


def content(d):
    out = {}
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


def check_h5(rec, path, srcs, mode, what):
    data, flag = expected(srcs, mode)
    for key, want in (('data', data), ('flag', flag)):
        df = pd.read_hdf(path, key)
        rec.same({int(c) for c in df.columns}, set(IDS), f'{key} {what}')
        rec.same(str(df.index.tz), 'UTC', f'time zone of {key} {what}')
        for c in df.columns:
            rec.same(unix(df), want[int(c)][0], f'times of {key} {what}')
            rec.close(df[c].values.astype(float), want[int(c)][1],
                      f'{key} of station {c} {what}', rtol=1e-6)
    ll = pd.read_hdf(path, 'latlon')
    rec.same({int(i): (float(r['lat']), float(r['lon']))
              for i, r in ll.iterrows()},
             {i: (50 + i / 128, 6 + i / 64) for i in IDS}, f'positions {what}')


def operations(m, wide):
    """Everything that can be done in a state."""
    ops = []
    h5 = m.h5 is not None
    for make in (False, True):
        for q in (None,) + MODES + (('other',) if wide else ()):
            asks = int(make and h5)
            if q in MODES and (h5 or make) and q in m.qc:
                asks += 1
            answers = [()]
            for _ in range(asks):
                answers = [a + (x,) for a in answers
                           for x in (('y', 'n', 'Y', '') if wide
                                     else ('y', 'n'))]
            if asks:
                answers.append(answers[0][:-1])       # the input ends
            ops += [('run', make, q, a, wide and not make, False)
                    for a in answers]
    ops.append(('run', True, None, ('y',) * int(h5), False, True))
    if 'b' not in m.offer:
        ops.append(('publish',))
    if h5:
        ops.append(('remove', 'h5'))
    for q in list(m.qc)[:1]:
        ops.append(('remove', q))
    return ops


def name_of(ds, mode=None):
    return ds.lower() + (f'-qc{mode}' if mode else '') + '.h5'


def apply(w, d, m, op):
    """Do it in folder d, compare with the model. -> new model"""
    rec, m = w.rec, m.copy()
    if op[0] == 'publish':
        m.offer = m.offer + ('b',)
        return m
    if op[0] == 'remove':
        if op[1] == 'h5':
            os.remove(os.path.join(d, name_of(w.ds)))
            m.h5 = None
        else:
            os.remove(os.path.join(d, name_of(w.ds, op[1])))
            del m.qc[op[1]]
        return m
    _, make, q, answers, meta, down = op
    before = content(d)
    args = [w.ds, d] + (['-m'] if meta else []) + (['-h5'] if make else [])
    if len(answers) % 2:
        args.append('-s')
    args += ['-q', q] if q else []
    rec.step()
    err, asked = w.invoke(w.net(m.offer), args, answers, down)
    what = f'after {args[2:]} with answers {answers}'
    left, questions, bad = list(answers), 0, None
    fresh = set()
    if meta and not down:
        m.meta = (w.ds + '_metadata.xml',)
        fresh.add(m.meta[0])
    if down:
        bad = 'the server'
    else:
        m.nc = tuple(sorted(set(m.nc) | set(m.offer)))
    if not bad and make:
        if m.h5 is None:
            m.h5 = m.nc
            fresh.add(name_of(w.ds))
        else:
            questions += 1
            if not left:
                bad = 'the input'
            elif left.pop(0).lower() == 'y':
                m.h5 = m.nc
                fresh.add(name_of(w.ds))
    if not bad and q:
        if m.h5 is None or q not in MODES:
            bad = 'the quality control'
        elif q in m.qc:
            questions += 1
            if not left:
                bad = 'the input'
            elif left.pop(0).lower() == 'y':
                m.qc[q] = m.h5
                fresh.add(name_of(w.ds, q))
        else:
            m.qc[q] = m.h5
            fresh.add(name_of(w.ds, q))
    rec.same(asked, questions, f'number of questions {what}')
    rec.true((err is None) == (bad is None), lambda: f'{what}: '
             f'{type(err).__name__} {err}' if err else
             f'{what}: {bad} is wrong, but no error')
    after = {n: c for n, c in content(d).items()
             if n.endswith(('.nc', '.h5', '.xml'))}
    want = {FILES[s] for s in m.nc} | set(m.meta) | \
        {name_of(w.ds, x) for x in m.qc} | \
        ({name_of(w.ds)} if m.h5 is not None else set())
    rec.same(set(after), want, f'files {what}')
    for n in after:
        if n.endswith('.nc'):
            rec.true(after[n] == w.bytes[n], f'{n} is not the source {what}')
        elif n in m.meta:
            rec.true(after[n] == b'<meta/>', f'{n} {what}')
        elif n not in fresh:
            rec.true(after[n] == before.get(n), f'{n} was changed {what}')
    if name_of(w.ds) in fresh:
        check_h5(rec, os.path.join(d, name_of(w.ds)), m.h5, None, what)
    if q and name_of(w.ds, q) in fresh:
        check_h5(rec, os.path.join(d, name_of(w.ds, q)), m.qc[q], q, what)
    rec.outcome([m.key(), type(err).__name__])
    return m


def run_history(case, rec):
    """All histories that begin with the given operations."""
    ds, first, depth, wide = case
    w = World(rec, ds)
    n = [0]

    def fork_dir(d):
        n[0] += 1
        new = os.path.join(w.root, f's{n[0]}', 'set')
        if os.path.isdir(d):
            shutil.copytree(d, new)
        else:
            os.makedirs(os.path.dirname(new))
        return new

    d, m = os.path.join(w.root, 's0', 'set'), Model()
    os.makedirs(os.path.dirname(d))
    for i in first:
        ops = operations(m, wide)
        if i >= len(ops):
            return
        m = apply(w, d, m, ops[i])
    seen, todo = {m.key()}, collections.deque([(d, m, len(first))])
    while todo:
        d, m, k = todo.popleft()
        if k < depth:
            for op in operations(m, wide):
                e = fork_dir(d)
                new = apply(w, e, m, op)
                if new.key() in seen:
                    shutil.rmtree(os.path.dirname(e))
                else:
                    seen.add(new.key())
                    rec.state()
                    todo.append((e, new, k + 1))
        shutil.rmtree(os.path.dirname(d))


def run_names(case, rec):
    """Names of data sets, and what is not one."""
    ds, ok = case
    import solarspatialtools.dataio.hope_campaign as hc
    if ok:
        w = World(rec, ds)
        d = os.path.join(w.root, 'deep', 'er', 'set')
        os.makedirs(os.path.dirname(d))
        m = Model()
        for op in (('run', True, 'null', (), True, False),
                   ('run', True, 'null', ('n', 'n'), True, False),
                   ('run', False, 'interp', (), False, False)):
            m = apply(w, d, m, op)
        return
    w = World(rec, list(hc.URLS)[0])
    d = os.path.join(w.root, 'set')
    rec.step()
    net = w.net(('a',))
    err, asked = w.invoke(net, [ds, d, '-h5'], ())
    rec.true(isinstance(err, (ValueError, SystemExit)),
             f'{ds!r} is accepted: {err!r}')
    rec.true(not os.path.exists(d), 'the target of an unknown data set')
    rec.true(not os.path.exists(net.log), 'requests for an unknown data set')


def spaces(tier):
    deep = tier == 'thorough'
    n0 = len(operations(Model(), False))
    cases = [('HOPE', (i,), 4 if deep else 3, False) for i in range(n0)]
    cases += [('hope-melpitz', (i,), 3 if deep else 2, True)
              for i in range(len(operations(Model(), True)))]
    if deep:
        cases = [(ds, f + (j,), dep, wd) for ds, f, dep, wd in cases
                 for j in range(60)]
    return [
        Space('histories', cases, run_history, 'all histories of invocations, '
              'answers, publications and removals up to depth 3 (4); with '
              'more kinds of answers up to depth 2 (3)', chunk=1),
        Space('names', [(n, True) for n in
                        ('HOPE', 'Hope', 'hope-melpitz', 'LINDENBERG')]
              + [(n, False) for n in ('', 'HOP', 'HOPE ', 'melpitz')],
              run_names, 'data set names', chunk=1)]
