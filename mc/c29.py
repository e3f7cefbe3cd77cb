"""C29: switches that only display things change nothing else.

Explicit enumeration of histories of calls with the display switches (plot,
debug, verbose) on and off, on the real code, against the undisplayed call:
same result bit by bit, same use of the random generator, same arguments, same
files.  Plus the two display helpers: marks and histograms against the figures
they draw."""
import contextlib
import io
import itertools
import os
import warnings
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C29'
ASSUME = [
    'what is drawn is looked at in a non-interactive matplotlib back end',
    'figures the user has open may be drawn into',
]


# ------------------------------------------------------------------- display
@contextlib.contextmanager
def display():
    """-> (matplotlib.pyplot, captured output); no figures before and after"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield plt, out
    finally:
        plt.close('all')


def drawn(plt):
    return [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]


def images(plt):
    return [np.asarray(im.get_array()) for ax in drawn(plt)
            for im in ax.get_images()]


# ----------------------------------------------------------------- the calls
def fld(n, m, salt):
    return gen.hash01(n * m, salt).reshape(n, m)


def calls(kind, p):
    """-> (function(switch) , arguments, which results are shown as images)"""
    from solarspatialtools.synthirrad import cloudfield as cf, copula as cp
    if kind == 'random':
        a = [tuple(p[0]), tuple(p[1])]
        return (lambda k: cf._random_at_scale(*a, **k)), 'plot', a, (1,)
    if kind == 'stack':
        n = len(p[1])
        a = [np.full(n, 1 / n), np.array(p[1]), tuple(p[0]), p[2]]
        return (lambda k: cf._stack_random_field(*a, **k)), 'plot', a, None
    if kind == 'mask':
        a = [fld(*p[:3]), p[3]]
        return (lambda k: cf._calc_clear_mask(*a, **k)), 'plot', a, None
    if kind == 'edges':
        n, m, bits, size, thr = p
        b = np.array([bits >> i & 1 for i in range(n * m)], float)
        a = [b.reshape(n, m), size, thr]
        return (lambda k: cf._find_edges(*a, **k)), 'plot', a, (0, 1)
    if kind in ('lave', 'basic'):
        n, m, salt, assign, ktmean, ktmax, kt1 = p
        s = np.array([assign // 3 ** i % 3 for i in range(n * m)])
        s = s.reshape(n, m)
        edge = (s == 1) if kind == 'lave' else (s == 1) * 1.
        a = [fld(n, m, salt), (s == 2) * 1., edge, ktmean, ktmax, kt1]
        f = cf._scale_field_lave if kind == 'lave' else cf._scale_field_basic
        return (lambda k: f(*a, **k)), 'plot', a, None
    if kind == 'stats':
        n, salt, thr, dt = p
        a = [pd.Series(gen.hash01(n, salt) * 1.2, gen.tindex(n, dt)), thr]
        return (lambda k: cf.get_timeseries_stats(*a, **k)), 'plot', a, ()
    if kind == 'gm':
        x, mu, var, w = p
        a = [np.array(x) if isinstance(x, list) else x, mu, var, w]
        return (lambda k: cp._gmdistribution(*a, **k)), 'debug', a, ()
    if kind == 'gmm':
        a = [np.linspace(0, 2, p[0]), p[1], cp.DEFAULT_PARAMS]
        return (lambda k: cp._solar_gmm(*a, **k)), 'debug', a, ()
    raise ValueError(kind)


def parts(r):
    return list(r) if isinstance(r, tuple) else [r]


def run_switch(case, rec):
    """All histories of switch settings up to the given length."""
    kind, p, depth = case
    fn, name, args, shown = calls(kind, p)
    snap = gen.snapshot(args)

    def call(sw):
        kw = {} if sw == 'omitted' else {name: sw == 'on'}
        np.random.seed(7)
        rec.step()
        try:
            r = fn(kw)
        except Exception as e:
            r = f'{type(e).__name__}'
        image = gen.snapshot(list(parts(r))), type(r).__name__, \
            gen.snapshot(np.random.get_state())
        rec.same(gen.snapshot(args), snap, f'{kind} {p}: arguments, {sw}')
        return r, image

    state = np.random.get_state()
    try:
        with display() as (plt, out):
            import matplotlib
            want = call('omitted')
            text = out.getvalue()
            settings = repr(sorted(dict.items(matplotlib.rcParams)))
            rec.same(plt.get_fignums(), [], f'{kind}: figures')
            for hist in itertools.product(('off', 'on', 'omitted'),
                                          repeat=depth):
                if 'on' not in hist and depth > 1:
                    continue    # the subject of C24
                plt.close('all')
                rec.state()
                for i, sw in enumerate(hist):
                    before = [len(drawn(plt))]
                    out.truncate(0)
                    out.seek(0)
                    r, image = call(sw)
                    rec.same(image, want[1], f'{kind} {p}: result with '
                             f'{hist[:i + 1]}')
                    rec.same(out.getvalue(), text, f'{kind}: printed, {sw}')
                    if sw != 'on':
                        rec.same([len(drawn(plt))], before,
                                 f'{kind}: displayed although {sw}')
                    elif not isinstance(r, str):
                        rec.true(drawn(plt), f'{kind}: nothing displayed')
                        got = images(plt)
                        rs = parts(r)
                        for j in (range(len(rs)) if shown is None else shown):
                            rec.true(any(
                                g.shape == np.shape(rs[j]) and
                                np.array_equal(np.asarray(g, float),
                                               np.asarray(rs[j], float),
                                               equal_nan=True)
                                for g in got),
                                f'{kind} {p}: result {j} is not displayed')
                        if kind in ('gm', 'gmm'):
                            lines = [(ln.get_xdata(), ln.get_ydata())
                                     for ax in drawn(plt)
                                     for ln in ax.get_lines()]
                            for j in (0, 1):
                                rec.true(any(
                                    np.array_equal(np.atleast_1d(x),
                                                   np.atleast_1d(args[0]))
                                    and np.array_equal(np.atleast_1d(y),
                                                       np.atleast_1d(rs[j]))
                                    for x, y in lines),
                                    f'{kind} {p}: result {j} not displayed')
                    rec.same(repr(sorted(dict.items(matplotlib.rcParams))),
                             settings, f'{kind}: settings of matplotlib')
                    if i + 1 == depth:
                        rec.outcome((kind, repr(image)[:400]))
    finally:
        np.random.set_state(state)


# ------------------------------------------------------------------- printing
def tree(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


def run_wget(case, rec):
    """The batch download: what is printed, and what is left behind."""
    from mc import c23
    sizes, pre, verbose, repeat = case
    b = c23.Batch(rec, sizes, pre, 'length', 'wget', verbose=verbose)
    from solarspatialtools.dataio import iotools
    for i in range(repeat):
        out = io.StringIO()
        kw = {} if verbose is None else {'verbose': verbose}
        rec.step()
        with b.net.up():
            with contextlib.redirect_stdout(out):
                iotools.wget_fromurl(c23.HOST + '/wget.sh', b.dir, **kw)
        lines = out.getvalue().split('\n')[:-1]
        want = {**b.files, **b.have}
        rec.same(tree(b.dir), want, f'{case}: files')
        if verbose is False:
            rec.same(lines, [], f'{case}: printed')
        else:
            rec.same(len(lines), len(b.files), f'{case}: lines')
            for ln, n in zip(lines, b.files):
                rec.true(ln.startswith(n), f'{case}: {ln!r} for {n}')
                rec.same(ln != n, bool(i) or n in b.have,
                         f'{case}: {ln!r} says whether it was there')
        rec.outcome((verbose, len(lines)))


def run_convert(case, rec):
    """The conversion to h5: what is printed, and what is in it."""
    from mc import c22
    from solarspatialtools.dataio.hope_campaign import dataset_to_h5
    files, verbose, again = case
    d = rec.tmp()
    src, tgt = os.path.join(d, 'src'), os.path.join(d, 'out.h5')
    os.mkdir(src)
    ids = [3, 1]
    names = ['b.nc', 'a.nc', 'c10.nc']
    use = sorted((names[k], k) for k in files)
    for n, k in use:
        secs, vals, flags = c22.content(k, ids, 3)
        c22.nc_file(os.path.join(src, n), ids, secs, vals, flags)
    before = tree(src)
    for over in (False,) + (True,) * again:
        out = io.StringIO()
        rec.step()
        with contextlib.redirect_stdout(out):
            kw = {} if verbose is None else {'verbose': verbose}
            dataset_to_h5(src, tgt, overwrite=over, **kw)
        lines = out.getvalue().split('\n')[:-1]
        rec.same(lines, [] if verbose is False else [n for n, _ in use],
                 f'{case}: printed')
        rec.same(tree(src), before, f'{case}: the source folder')
        c22.check_h5(rec, tgt, [(k, ids, 3) for _, k in use], f'{case}')
    rec.outcome((verbose, len(lines)))


# -------------------------------------------------------------------- helpers
PERIODS = {'1d': 86400, '12h': 43200, '1h': 3600, '30m': 1800, '10m': 600,
           '1m': 60, '30s': 30, '15s': 15, '5s': 5}


def run_annotate(case, rec):
    """Marks of the time scales, on axes of all kinds."""
    from solarspatialtools.visualization.vis_tools import annotate_fig
    xs, ys, lines, times, naxes, which = case
    with display() as (plt, out):
        fig, axs = plt.subplots(1, naxes, squeeze=False)
        axs = list(axs[0])
        for i, ax in enumerate(axs):
            ax.set_xscale(xs)
            ax.set_yscale(ys)
            for j in range(lines):
                ax.plot([1e-5, 1e-3, .1], [.1 * (j + 1), .2, .3 + i])
        old = [[(ln.get_xdata().tolist(), ln.get_ydata().tolist(),
                 ln.get_color()) for ln in ax.get_lines()] for ax in axs]
        plt.sca(axs[-1])
        ax = axs[which]
        for t in range(1, times + 1):
            rec.step()
            rec.same(annotate_fig(ax), None, f'{case}: returned')
            got = sorted((x.get_text(), round(1 / x.xy[0], 6))
                         for x in ax.texts)
            rec.same(got, sorted(list(PERIODS.items()) * t),
                     f'{case}: labels and their periods')
            new = ax.get_lines()[lines:]
            rec.true(new, f'{case}: no marks')
            xdata = [float(v) for ln in new for v in ln.get_xdata()]
            for n, p in PERIODS.items():
                rec.true(any(abs(v * p - 1) < 1e-9 for v in xdata),
                         f'{case}: mark of {n}')
            rec.true(all(np.isnan(v) or any(abs(v * p - 1) < 1e-9 for p in
                                            PERIODS.values()) for v in xdata),
                     f'{case}: marks elsewhere')
        for i, a in enumerate(axs):
            rec.same((a.get_xscale(), a.get_yscale()), (xs, ys),
                     f'{case}: scales')
            now = [(ln.get_xdata().tolist(), ln.get_ydata().tolist(),
                    ln.get_color()) for ln in a.get_lines()]
            rec.same(now[:lines], old[i], f'{case}: lines that were there')
            if i != which:
                rec.same((len(now), len(a.texts)), (lines, 0),
                         f'{case}: other axes')
        rec.outcome((xs, ys, len(now)))


def run_hist(case, rec):
    """Scatter plot with histograms: every point in both."""
    from solarspatialtools.visualization.vis_tools import scatter_hist
    points, form = case
    mk = {'array': np.array, 'series': lambda v: pd.Series(
        v, index=gen.labels('str', len(v))), 'int': lambda v: np.array(
            [int(x) for x in v])}[form]
    x, y = mk([a for a, _ in points]), mk([b for _, b in points])
    snap = gen.snapshot([x, y])
    with display() as (plt, out):
        rec.step()
        scatter_hist(x, y)
        rec.same(gen.snapshot([x, y]), snap, 'the arguments')
        axes = drawn(plt)
        offs = [c.get_offsets() for a in axes for c in a.collections]
        rec.true(any(np.array_equal(np.asarray(o), np.array(
            [np.asarray(x, float), np.asarray(y, float)]).T) for o in offs),
            f'{case}: points of the scatter plot')
        hists = [a for a in axes if a.patches]
        rec.same(len(hists), 2, 'histograms')
        seen = []
        for a in hists:
            b = [(q.get_x(), q.get_y(), q.get_width(), q.get_height())
                 for q in a.patches]
            # bars stand on the axis of the variable
            if all(v[1] == 0 for v in b):
                seen.append(('x', [(v[0], v[0] + v[2], v[3]) for v in b]))
            else:
                seen.append(('y', [(v[1], v[1] + v[3], v[2]) for v in b]))
        rec.same(sorted(s for s, _ in seen), ['x', 'y'], 'orientations')
        for s, bars in seen:
            v = np.asarray(x if s == 'x' else y, float)
            rec.same(sum(h for _, _, h in bars), len(v),
                     f'{case}: points in the histogram of {s}')
            last = max(b for _, b, _ in bars)
            for lo, hi, h in bars:
                n = int(((v >= lo) & (v < hi)).sum())
                if hi == last:
                    n += int((v == hi).sum())
                rec.same(h, n, f'{case}: {s} in [{lo}, {hi})')
        rec.outcome(repr(points))


# ----------------------------------------------------------------------- cases
def switch_cases(deep):
    out = []
    d = 3 if deep else 2
    for rs, fs in itertools.product([(0, 0), (1, 1), (2, 3), (1, 4), (4, 5)],
                                    [(1, 1), (5, 4), (9, 2), (3, 12)]):
        out.append(('random', (rs, fs), d))
    for size, sc, norm in itertools.product(
            [(4, 4), (9, 5), (16, 3)], [[1], [1, 2], [3, 1, 2], [1, 2, 3, 4]],
            (False, True)):
        out.append(('stack', (size, sc, norm), d))
    for n, m in ((2, 2), (3, 4), (5, 1)):
        for k in range(n * m + 1):
            out += [('mask', (n, m, s, k / (n * m)), d) for s in (1, 2)]
    for n, m in ((2, 2), (2, 3)) + (((3, 3),) if deep else ()):
        for bits in range(2 ** (n * m)):
            for size, thr in ((1, 0), (3, .4)):
                out.append(('edges', (n, m, bits, size, thr), 2))
    for kind in ('lave', 'basic'):
        for n, m in ((2, 2),) + (((2, 3),) if deep else ()):
            for assign in range(3 ** (n * m)):
                # kinds without a cloudy pixel leave the scaling undefined
                sts = ((.6, 1.3, .1), (.95, 1.2, .3))
                for st in sts if deep else sts[assign % 2:][:1]:
                    out.append((kind, (n, m, 3, assign, *st), 2))
        out += [(kind, (6, 7, s, a, *st), d) for s in (1, 2, 3) for a in
                (0, 3 ** 5 * 2 + 4, 123456789012, 98765432109876)
                for st in ((.6, 1.3, .1), (.2, 1.5, .05))]
    for n in (2, 3, 4, 5, 8, 16, 33, 64):
        for thr, dt in itertools.product((.95, .3), (1., 5.)):
            out.append(('stats', (n, 4, thr, dt), 2))
    for x in ([.1, .5, .9, 1.3], [1.], .7, 1):
        for mu, var, w in (([.4, 1.], [.02, .01], [.3, .7]), ([1.], [.1], [1.]),
                           ([.2, .5, 1.], [.3, .1, .01], [.2, .3, .5])):
            out.append(('gm', (x, mu, var, w), d))
    for n in (2, 11, 101):
        for csi in (.1, .5, .9, 1.1):
            out.append(('gmm', (n, csi), d))
    return out


def spaces(tier):
    deep = tier == 'thorough'
    wg = [(sizes, pre, v, 2) for sizes in (('s',), ('0', 'b'), ('m', 's', 'c'))
          for k in range(len(sizes) + 1)
          for pre in itertools.combinations(range(len(sizes)), k)
          for v in (None, True, False)]
    cv = [(fs, v, again) for k in (1, 2, 3)
          for fs in itertools.combinations(range(3), k)
          for v in (None, True, False) for again in (0, 1)]
    an = [(xs, ys, ln, t, na, w) for xs in ('linear', 'log')
          for ys in ('linear', 'log') for ln in (0, 1, 2) for t in (1, 2)
          for na in (1, 2) for w in range(na)]
    vals = [-1.5, -.25, 0., .1, .25, 2.] if deep else [-1.5, -.25, 0., .1, 2.]
    pts = list(itertools.product(vals, repeat=2))
    hi = [([p], f) for p in pts for f in ('array', 'series')]
    hi += [([p, q], 'array') for p, q in itertools.product(pts, repeat=2)]
    ints = list(itertools.product((-3, 0, 1, 7), repeat=2))
    hi += [([p, q], 'int') for p, q in itertools.combinations(ints, 2)]
    if deep:
        sm = list(itertools.product((-1.5, 0., .3), repeat=2))
        hi += [(list(c), 'series') for c in itertools.product(sm, repeat=3)]
    return [Space('switches', switch_cases(deep), run_switch,
                  'all histories of on / off / omitted for every display '
                  'switch'),
            Space('wget', wg, run_wget, 'batch downloads, verbose or not'),
            Space('convert', cv, run_convert, 'conversions, verbose or not'),
            Space('annotate', an, run_annotate, 'axes of all kinds'),
            Space('hist', hi, run_hist, 'tuples of points of a menu')]
