"""C20: synthetic cloud fields.

Bounded exhaustive enumeration of the steps of the cloud field generator on the
real code: every small binary mask, every order of small fields, every clear
fraction in pixel steps, every combination of clear and edge masks, and menus
of scales, weights, sizes, seeds, positions and speeds, against plain reference
models written from the documentation."""
import contextlib
import io
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Space
from mc import gen

PROP = 'C20'
ASSUME = [
    'the clear mask matches its fraction for fields without ties; with ties '
    'it may be refused instead, but a mask that is returned has to match',
    'scaled fields have at least one pixel that is not clear and a cloud '
    'distribution that is not constant (otherwise the scaling is undefined)',
    'variability scores of the weights lie strictly between 0 and 180',
    'the composition of a cloud field time series draws the cloud field '
    'before the mask field from numpy\'s global generator',
]


def cfmod():
    from solarspatialtools.synthirrad import cloudfield
    return cloudfield


@contextlib.contextmanager
def rng(seed):
    st = np.random.get_state()
    np.random.seed(seed)
    try:
        yield
    finally:
        np.random.set_state(st)


# ---------------------------------------------------------------- references
def hat(nodes, n):
    """n x nodes matrix of linear interpolation from linspace(0,1,nodes) to
    linspace(0,1,n)"""
    A = np.zeros((n, nodes))
    for i in range(n):
        p = 0. if n == 1 else i / (n - 1) * (nodes - 1)
        k = min(int(math.floor(p)), nodes - 2)
        A[i, k] += 1 - (p - k)
        A[i, k + 1] += p - k
    return A


def quantile(v, q):
    v = sorted(float(x) for x in np.ravel(v))
    p = q * (len(v) - 1)
    k = int(math.floor(p))
    if k >= len(v) - 1:
        return v[-1]
    return v[k] + (p - k) * (v[k + 1] - v[k])


def refl(i, n):
    """half-sample symmetric continuation"""
    p = i % (2 * n)
    return p if p < n else 2 * n - 1 - p


def ref_edges(m):
    nx, ny = m.shape
    out = np.zeros((nx, ny))
    w = [1, 2, 1]
    for i in range(nx):
        for j in range(ny):
            sx = sy = 0.
            for d in (-1, 0, 1):
                jj, ii = refl(j + d, ny), refl(i + d, nx)
                sx += w[d + 1] * (m[refl(i + 1, nx), jj]
                                  - m[refl(i - 1, nx), jj])
                sy += w[d + 1] * (m[ii, refl(j + 1, ny)]
                                  - m[ii, refl(j - 1, ny)])
            out[i, j] = sx * sx + sy * sy
    return out


def ref_uniform(e, size):
    nx, ny = e.shape
    lo = -(size // 2)
    o = range(lo, lo + size)
    a = np.zeros((nx, ny))
    for i in range(nx):
        ii = [refl(i + d, nx) for d in o]
        for j in range(ny):
            a[i, j] = sum(e[p, refl(j + d, ny)] for p in ii for d in o)
    return a / size ** 2


# -------------------------------------------------------------- random fields
def run_random(case, rec):
    rs, fs, seed = case
    cf = cfmod()
    with rng(seed):
        base, new = cf._random_at_scale(tuple(rs), tuple(fs))
    with rng(seed):
        base2, new2 = cf._random_at_scale(tuple(rs), tuple(fs))
    with rng(seed + 1):
        base3, _ = cf._random_at_scale(tuple(rs), tuple(fs))
    rec.step(3)
    rec.close(new2, new, 'the same seed gives the same field', rtol=0, atol=0)
    rec.true(not np.array_equal(base, base3), 'another seed gives another field')
    want = tuple(max(r, 1) if max(r, 1) > 1 else 2 for r in rs)
    rec.same(base.shape, want, 'size of the random field')
    rec.true(np.all((base >= 0) & (base < 1)), 'base values are in [0, 1)')
    u = np.unique(base)
    rec.true(len(u) == max(rs[0], 1) * max(rs[1], 1),
             'one independent value per point of the random field')
    for ax in (0, 1):
        if rs[ax] <= 1:
            rec.true(np.all(base.take(0, ax) == base.take(1, ax)),
                     'a single value is repeated')
    rec.close(new, hat(base.shape[0], fs[0]) @ base @ hat(base.shape[1],
                                                         fs[1]).T,
              'linear interpolation to the final size', atol=1e-12)
    rec.outcome((base.shape, new.shape))


def run_stack(case, rec):
    """One scale alone has the detail of that scale and no more; several add
    up with their weights."""
    scales, size, seed = case
    size = tuple(size)
    cf = cfmod()

    def f(w, **k):
        with rng(seed):
            rec.step()
            return cf._stack_random_field(np.array(w, float), scales, size, **k)
    n = len(scales)
    w1 = [1. / (k + 2) for k in range(n)]
    w2 = [(k + 1.) / 4 for k in range(n)]
    a, b = f(w1), f(w2)
    rec.same(a.shape, size, 'size of the field')
    rec.close(a + b, f([p + q for p, q in zip(w1, w2)]),
              'weights act linearly')
    rec.close(3 * a, f([3 * p for p in w1]), 'weights act linearly (scaled)')
    lo, hi = 0, sum(w1)
    rec.true(np.all((a >= lo) & (a <= hi)), 'field within the weights')
    nrm = f(w1, normalize=True)
    rec.close(nrm, (a - a.min()) / (a.max() - a.min()), 'normalised field')
    rec.true(nrm.min() == 0 and nrm.max() == 1, 'normalised to 0..1')
    # detail: component k lies in the span of its own grid
    for k, s in enumerate(scales):
        w = list(w1)
        w[k] += 1.
        comp = f(w) - a
        nodes = [max(int(d * 2.0 ** (1 - s)), 1) for d in size]
        r = comp
        for ax in (0, 1):
            m = nodes[ax]
            if m == 1:
                r = r - r.mean(axis=ax, keepdims=True)
                rec.true(np.max(np.abs(r)) < 1e-9,
                         f'scale {s}: no variation along axis {ax}')
                r = comp
                continue
            A = hat(m, size[ax])
            M = comp if ax == 0 else comp.T
            P = A @ np.linalg.lstsq(A, M, rcond=None)[0]
            rec.true(np.max(np.abs(P - M)) < 1e-9,
                     f'scale {s}: detail finer than {m} points on axis {ax}')
            if 2 < m <= size[ax]:
                A = hat(m - 1, size[ax])
                P = A @ np.linalg.lstsq(A, M, rcond=None)[0]
                rec.true(np.max(np.abs(P - M)) > 1e-6,
                         f'scale {s}: coarser than {m} points on axis {ax}')
        rec.true(comp.min() >= -1e-12 and comp.max() <= 1 + 1e-12,
                 'component within its weight')
        if nodes == [d for d in size]:
            rec.true(len(np.unique(comp)) == comp.size,
                     'finest scale: every pixel is independent')
    if n > 1:
        w = list(w1)
        w[0] += 1.
        c0 = f(w) - a
        w = list(w1)
        w[1] += 1.
        c1 = f(w) - a
        rec.true(np.max(np.abs(c0 - c1)) > 1e-6, 'scales are independent')
    rec.raises(ValueError, lambda: f(w1 + [.1]), 'weights and scales differ')
    if n > 1:
        rec.raises(ValueError, lambda: f(w1[:-1]), 'weights and scales differ')
    rec.outcome((n, size))


# ---------------------------------------------------------------- clear masks
def check_mask(rec, field, frac, ties):
    cf = cfmod()
    f0 = field.copy()
    rec.step()
    try:
        m = cf._calc_clear_mask(field, frac)
    except AssertionError:
        if ties:
            rec.outcome('refused')
            return
        raise
    rec.true(np.array_equal(field, f0), 'the field is left alone')
    m = np.asarray(m)
    rec.same(m.shape, field.shape, 'shape of the mask')
    rec.true(np.all((m == 0) | (m == 1)), 'the mask is binary')
    n = field.size
    k = int(np.sum(m))
    rec.true(abs(k - frac * n) <= 1 + 1e-3 * frac * n + 1e-9,
             lambda: f'{k} of {n} pixels clear for a fraction of {frac}')
    if 0 < k < n:
        rec.true(np.max(field[m == 1]) < np.min(field[m == 0]),
                 'clear pixels are the lowest of the field')
    if frac == 0:
        rec.same(k, 0, 'nothing is clear')
    if frac == 1:
        rec.same(k, n, 'everything is clear')
    rec.outcome((n, k))


def run_perm(case, rec):
    """All orders that start with `head`, all fractions in pixel steps."""
    shape, head, scale, off = case
    n = shape[0] * shape[1]
    rest = [v for v in range(n) if v not in head]
    for p in itertools.permutations(rest):
        v = np.array(list(head) + list(p), float) * scale + off
        for k2 in range(2 * n + 1):
            check_mask(rec, v.reshape(shape), k2 / (2 * n), False)
        rec.state()


def run_ties(case, rec):
    shape, head = case
    n = shape[0] * shape[1]
    for p in itertools.product((0., 1., 2.), repeat=n - len(head)):
        f = np.array(list(head) + list(p)).reshape(shape)
        for k2 in range(0, 2 * n + 1):
            check_mask(rec, f, k2 / (2 * n), True)
        rec.state()


def run_big(case, rec):
    shape, salt, steps = case
    n = shape[0] * shape[1]
    f = (gen.hash01(n, salt) * 3 - 1).reshape(shape)
    for k in range(steps + 1):
        check_mask(rec, f, k / steps, False)
    cf = cfmod()
    for bad in (-1e-6, -1, 1.0001, 2):
        rec.raises(ValueError, lambda: cf._calc_clear_mask(f, bad),
                   f'fraction {bad}')


# ---------------------------------------------------------------------- edges
def check_edges(rec, m, size, thrs):
    cf = cfmod()
    e0 = ref_edges(m)
    s0 = ref_uniform(e0, size)
    s0[s0 < 1e-5] = 0
    for t in thrs:
        m0 = m.copy()
        with np.errstate(all='ignore'):
            rec.step()
            e, b = cf._find_edges(m, size, t)
        rec.true(np.array_equal(m, m0), 'the mask is left alone')
        rec.close(e, e0, 'edges of the mask', atol=1e-9)
        b = np.asarray(b)
        rec.true(b.dtype == bool or np.all((b == 0) | (b == 1)),
                 'smoothed edges are binary')
        rec.same(b.shape, m.shape, 'shape of the smoothed edges')
        if s0.max() == 0:
            rec.true(not b.any(), 'a mask without borders has no edges')
            rec.outcome('none')
            continue
        r = s0 / s0.max()
        sure = np.abs(r - t) > 1e-9 if t else np.ones(r.shape, bool)
        rec.true(np.array_equal(b[sure] > 0, (r > t)[sure]),
                 lambda: f'smoothed edges above {t}: {b.astype(int).tolist()} '
                 f'from {r.tolist()}')
        rec.outcome((size, t, int(b.sum())))


def run_masks(case, rec):
    shape, size, lo, hi, dt = case
    n = shape[0] * shape[1]
    for code in range(lo, hi):
        m = np.array([(code >> k) & 1 for k in range(n)], dt).reshape(shape)
        check_edges(rec, m, size, (0, .25, .5))
        rec.state()


def run_rects(case, rec):
    shape, size, x0, x1 = case
    for y0 in range(shape[1]):
        for y1 in range(y0 + 1, shape[1] + 1):
            for inv in (0, 1):
                m = np.full(shape, float(inv))
                m[x0:x1, y0:y1] = 1 - inv
                check_edges(rec, m, size, (0, .3))
                e, b = cfmod()._find_edges(m, size, 0)
                d = size // 2 + 1
                far = np.ones(shape, bool)
                # pixels within reach of a change of the mask
                for i in range(shape[0]):
                    for j in range(shape[1]):
                        w = m[max(i - d, 0):i + d + 1, max(j - d, 0):j + d + 1]
                        far[i, j] = w.min() == w.max()
                rec.true(not np.any(np.asarray(b)[far]),
                         'edges away from the borders of the mask')
                rec.state()


# -------------------------------------------------------------------- scaling
def ref_lave(field, clear, edge, ktmean, ktmax, kt1, q):
    fm = quantile(field[clear == 0], q)
    old = np.seterr(all='ignore')
    c = np.clip(1 - field * (1 - kt1) / fm, 0, 1)
    ce = 1 + (c - c.min()) / (c.max() - c.min()) * (ktmax - 1)
    np.seterr(**old)
    is_clear = clear > 0
    is_edge = (edge > 0) & ~is_clear
    cloud = ~is_clear & ~is_edge
    out = np.where(is_clear, 1., ce)
    need = field.size * ktmean - is_clear.sum() - ce[is_edge].sum()
    cs = c[cloud].sum()
    if need > 0 and cs > 0:
        out[cloud] = c[cloud] * need / cs
        matched = True
    else:
        out[cloud] = c[cloud]
        matched = False
    return out, cloud, is_edge, is_clear, matched, need


def check_scaled(rec, got, ref, ktmean, ktmax):
    out, cloud, is_edge, is_clear, matched = ref[:5]
    rec.same(got.shape, out.shape, 'shape of the scaled field')
    rec.true(np.all(got[is_clear] == 1), 'clear pixels have index one')
    e = got[is_edge]
    rec.true(np.all((e >= 1 - 1e-9) & (e <= ktmax + 1e-9)),
             lambda: f'edges between 1 and {ktmax}: {e}')
    if matched and cloud.any():
        rec.true(abs(got.mean() - ktmean) <= 1e-9 * max(1, abs(ktmean)),
                 lambda: f'mean {got.mean()} instead of {ktmean}')
    rec.true(np.all(got[cloud] >= -1e-12), 'no negative index')
    rec.close(got, out, 'scaled field', rtol=1e-8, atol=1e-10)


def run_lave(case, rec):
    shape, salt, codes, kinds = case
    n = shape[0] * shape[1]
    cf = cfmod()
    field = (.05 + .9 * gen.hash01(n, salt)).reshape(shape)
    for code in range(*codes):
        st = [(code // 3 ** k) % 3 for k in range(n)]   # cloud, edge, clear
        a = np.array(st).reshape(shape)
        if np.all(a == 2):
            continue
        for kind in kinds:
            clear = (a == 2).astype(float)
            if kind == 'bool':
                edge = a == 1
            elif kind == 'float':
                edge = (a == 1) * 7.5
            elif kind == 'overlap':          # edges reach into the clear part
                edge = np.where(a >= 1, 2., 0.)
            else:
                edge = (a >= 1)
                clear = clear.astype(int)
            for ktmean, ktmax, kt1, q in LAVE[kind]:
                ref = ref_lave(field, clear, np.asarray(edge) * 1., ktmean,
                               ktmax, kt1, q)
                if abs(ref[5]) < 1e-9 or not np.isfinite(ref[0]).all():
                    continue
                s0 = gen.snapshot((field, clear, edge))
                with np.errstate(all='ignore'):
                    rec.step()
                    got = cf._scale_field_lave(field, clear, edge, ktmean,
                                               ktmax, kt1, q)
                rec.true(gen.snapshot((field, clear, edge)) == s0,
                         'inputs left alone')
                check_scaled(rec, got, ref, ktmean, ktmax)
                rec.outcome((code, kind, ktmean, bool(ref[4])))
        rec.state()
    # documented defaults
    a = np.zeros(shape)
    with np.errstate(all='ignore'):
        rec.close(cf._scale_field_lave(field, a, a, .6),
                  ref_lave(field, a, a, .6, 1.4, .2, .99)[0], 'defaults')


LAVE = {
    'bool': [(.6, 1.4, .2, .99), (.95, 1.2, .05, .9), (.1, 1.6, .3, 1.)],
    'float': [(.75, 1.3, .1, .99)],
    'overlap': [(.6, 1.4, .2, .99), (1.1, 1.5, .4, .95)],
    'int': [(.8, 1.25, 0., .99)],
}


def ref_basic(field, clear, edge, ktmean, ktmax, kt1, q=.999):
    v = field[clear == 0]
    hi, lo = quantile(v, q), quantile(v, 1 - q)
    r = (field - lo) / (hi - lo)
    r = np.where(r > 1, 2 - r, r)
    r = np.where(r < 0, -r, r)
    is_clear = clear > 0
    is_edge = (edge > 0) & ~is_clear
    cloud = ~is_clear & ~is_edge
    out = np.where(is_clear, 1., r * (ktmax - 1) + 1)
    base = kt1 * cloud.sum()
    need = (field.size * ktmean - is_clear.sum() - out[is_edge].sum() - base)
    cur = r[cloud].sum()
    ok = 0 < need < cur and cur > base
    out[cloud] = r[cloud] * need / cur + kt1 if ok else \
        r[cloud] * (1 - kt1) + kt1
    margin = min(abs(need), abs(need - cur), abs(cur - base))
    return out, cloud, is_edge, is_clear, ok, margin


def run_series(case, rec):
    """The whole generator, against the composition of its steps."""
    weights, scales, size, frac, ktmean, ktmax, kt1, scaling, es, seed = case
    cf = cfmod()
    size = tuple(size)
    w = np.array(weights, float)
    with rng(seed):
        cfield = cf._stack_random_field(w, scales, size)
        mf = cf._stack_random_field(w, scales, size)
    with np.errstate(all='ignore'):
        clear = cf._calc_clear_mask(mf, frac)
        edges, smooth = cf._find_edges(clear, es)
        kw = {} if es == 3 else {'edgesmoothing': es}
        if scaling is not None:
            kw['scaling'] = scaling
        out = io.StringIO()
        with rng(seed), contextlib.redirect_stdout(out):
            rec.step()
            got = cf.cloudfield_timeseries(w, scales, size, frac, ktmean,
                                           ktmax, kt1, **kw)
    if scaling == 'basic':
        ref = ref_basic(cfield, clear, smooth * 1., ktmean, ktmax, kt1)
        if ref[5] < 1e-9:
            return
        r = got[ref[1]]
        rec.true(np.all((r >= kt1 - 1e-9) & (r <= 1 + kt1 + 1e-9)),
                 'cloudy pixels between the minimum and one')
    else:
        ref = ref_lave(cfield, clear, edges, ktmean, ktmax, kt1, .99)
    check_scaled(rec, got, ref, ktmean, ktmax)
    k = int((got == 1).sum())
    rec.true(k >= int(frac * cfield.size) - 1, 'clear fraction of the field')
    rec.outcome((scaling, bool(ref[4]), k))


def series_cases(tier):
    out = []
    sets = [([.1, .2, .3, .4], [1, 2, 3, 4]), ([1.], [1]), ([.5, .5], [3, 1])]
    sizes = [(12, 9), (33, 7), (16, 16)]
    stats = [(.6, 1.3, .1), (.9, 1.15, .3), (.2, 1.5, .05), (1.05, 1.2, .5)]
    seeds = range(3 if tier == 'quick' else 12)
    out += [(sets[0][0], sets[0][1], (220, 160), f, *st, sc, 3, 4)
            for f, st in ((.3, stats[0]), (.7, stats[1]))
            for sc in (None, 'basic')]
    for (w, s), size, st, seed in itertools.product(sets, sizes, stats, seeds):
        for frac in (0, .1, .35, .5, .8, .95):
            for scaling, es in ((None, 3), ('original', 3), ('basic', 3),
                                ('basic', 5), ('basic', 1)):
                out.append((w, s, size, frac, *st, scaling, es, seed))
    return out


def run_badscale(case, rec):
    cf = cfmod()
    with rng(1), np.errstate(all='ignore'):
        rec.raises(ValueError, lambda: cf.cloudfield_timeseries(
            np.array([.5, .5]), [1, 2], (8, 8), .3, .6, 1.2, .1,
            scaling=case), 'unknown scaling')
    rec.step()


# ---------------------------------------------------------- weights and stats
def run_weights(case, rec):
    kind, *a = case
    cf = cfmod()
    rec.step()
    if kind == 'vs':
        n, first, vs = a
        sc = np.array([first * 2. ** k for k in range(n)])
        s0 = sc.copy()
        w = cf._calc_vs_weights(sc, vs)
        if vs == 0:
            rec.true(abs(sum(w) - 1) < 1e-12, 'weights sum to one')
            return
        x = -math.log(1 - vs / 180) / .6
        # ratio of the weights of neighbouring scales: 2^(1/x)
        lg = [math.log(first * 2. ** k) / x for k in range(n)]
        top = max(lg)
        ref = [math.exp(v - top) for v in lg]
        ref = [v / sum(ref) for v in ref]
        rec.true(np.array_equal(sc, s0), 'scales left alone')
        rec.true(abs(sum(w) - 1) < 1e-12, 'weights sum to one')
        rec.close(w, ref, 'weights', rtol=1e-8, atol=1e-14)
        rec.raises(ValueError, lambda: cf._calc_vs_weights(sc, -vs),
                   'negative variability')
        rec.outcome((n, vs))
    else:
        rows, cols, nan, salt = a
        v = (gen.hash01(rows * cols, salt) - .5).reshape(rows, cols)
        v *= np.arange(1, rows + 1)[:, None]
        for p in nan:
            v[p % rows, p % cols] = np.nan
        v0 = v.copy()
        w = cf._calc_wavelet_weights(v)
        pw = []
        for row in v:
            g = [x * x for x in row if not math.isnan(x)]
            pw.append(sum(g) / len(g))
        rec.true(np.array_equal(v, v0, equal_nan=True), 'waves left alone')
        rec.true(abs(np.sum(w) - 1) < 1e-12, 'weights sum to one')
        rec.close(w, [p / sum(pw) for p in pw], 'share of the mean square')
        rec.outcome(round(float(w[0]), 9))


def run_stats(case, rec):
    pattern, n, thr, index = case
    from solarspatialtools import stats as st
    import pvlib
    cf = cfmod()
    base = (list(pattern) * (n // len(pattern) + 1))[:n]
    v = np.array(base) + .001 * gen.hash01(n, 5)
    if index == 'time':
        s = pd.Series(v, index=gen.tindex(n))
    elif index == 'tz':
        s = pd.Series(v, index=gen.tindex(n, 2., tz='US/Mountain'), name='x')
    else:
        s = pd.Series(v, index=gen.tindex(n, .5))
    s0 = gen.snapshot(s)
    rec.step()
    got = cf.get_timeseries_stats(s, thr) if thr != .95 else \
        cf.get_timeseries_stats(s)
    rec.true(gen.snapshot(s) == s0, 'series left alone')
    rec.same(len(got), 7, 'seven statistics')
    mean, p1, mx, fc, vs, w, sc = got
    rec.close(mean, math.fsum(v) / n, 'mean')
    rec.close(p1, quantile(v, .01), '1st percentile')
    rec.close(mx, max(v), 'maximum')
    rec.close(fc, sum(1 for x in v if x > thr) / n, 'clear fraction')
    rec.close(vs, st.variability_score(s) * 1e4, 'variability score')
    waves, tms = pvlib.scaling._compute_wavelet(s)
    pw = [np.nanmean(np.asarray(x) ** 2) for x in waves[:-1]]
    rec.same(list(sc), list(range(1, len(pw) + 1)), 'scales')
    rec.close(w, np.array(pw) / sum(pw), 'weights of the modes')
    rec.true(abs(np.sum(w) - 1) < 1e-9, 'weights sum to one')
    rec.outcome(tuple(round(float(x), 9) for x in (mean, p1, mx, fc, vs)))


# ----------------------------------------------------------------- positional
def run_pos(case, rec):
    shape, v = case
    cf = cfmod()
    field = np.arange(shape[0] * shape[1], dtype=float).reshape(shape)
    for i4 in range(4 * shape[0]):
        for j in range(shape[1]):
            for fr in (0., .5):
                x, y = i4 / 4 * v, (j + fr) * v
                i = i4 // 4
                left = shape[0] - 1 - i
                for d in {0, 1, left // 2, left}:
                    if d > left:
                        continue
                    rec.step()
                    got = cf.get_positional_ts((x, y), field, v, duration=d)
                    want = [float((i + k) * shape[1] + j)
                            for k in range(d + 1)]
                    rec.same(list(got), want, f'series at {(x, y)} for {d}')
                    rec.outcome((i, j, d))
    if shape[0] == 8:
        big = np.arange(3700. * 2).reshape(3700, 2)
        rec.same(list(cf.get_positional_ts((v * 5, v), big, v)),
                 [float(2 * (5 + k) + 1) for k in range(3601)],
                 'an hour by default')


def spaces(tier):
    q = tier == 'quick'
    heads = list(itertools.permutations(range(6), 2))
    perm = [((2, 3), h, s, o) for h in heads
            for s, o in ((1., 0.), (-.125, .25))]
    perm += [((1, 4), (), 1., 0.), ((4, 1), (), .5, -3.), ((1, 1), (), 1., 2.)]
    if not q:
        perm += [((3, 3), h, 1., 0.)
                 for h in itertools.permutations(range(9), 4)]
    ties = [((2, 3), h) for h in itertools.product((0., 1., 2.), repeat=2)]
    if not q:
        ties += [((2, 4), h) for h in itertools.product((0., 1., 2.), repeat=3)]
    big = [(s, salt, n) for s in ((10, 10), (7, 13), (1, 50), (101, 30))
           for salt in range(2 if q else 6) for n in (100, 97)]
    masks = []
    for shape, step in [((3, 4), 64), ((2, 2), 16), ((1, 5), 32), ((2, 5), 64)] \
            + ([] if q else [((4, 4), 1024)]):
        tot = 2 ** (shape[0] * shape[1])
        for size in (1, 2, 3, 5):
            if q and shape == (3, 4) and size == 5:
                continue
            for lo in range(0, tot, step):
                masks.append((shape, size, lo, min(lo + step, tot), 'float'))
    rects = [((9, 11), size, x0, x1) for size in (1, 3, 4, 5)
             for x0 in range(9) for x1 in range(x0 + 1, 10)
             if not q or (x1 - x0) in (1, 2, 5, 9)]
    rects += [((40, 33), size, x0, x0 + 11) for size in (3, 9)
              for x0 in ((4,) if q else (0, 4, 17))]
    lave = []
    for shape, salt in [((2, 3), 1), ((2, 3), 2), ((3, 2), 3), ((1, 6), 4)] + \
            ([] if q else [((2, 4), 5), ((3, 3), 6)]):
        tot = 3 ** (shape[0] * shape[1])
        kinds = ['bool', 'float', 'overlap', 'int']
        for lo in range(0, tot, 81):
            lave.append((shape, salt, (lo, min(lo + 81, tot)), kinds))
    rs = range(0, 5 if q else 8)
    rand = [((a, b), f, seed) for a in rs for b in rs
            for f in ((1, 1), (2, 3), (5, 4), (1, 7), (9, 9)) for seed in (1, 7)]
    stack = [(s, size, seed)
             for s in ([1], [2], [3], [1, 2], [2, 1], [1, 3], [1, 2, 3],
                       [4, 2, 1], [1, 1], [1, 2, 3, 4, 5])
             for size in ((8, 8), (9, 6), (17, 5), (6, 20), (80, 4), (5, 96))
             for seed in range(2 if q else 6)]
    stack += [(s, size, 2) for s, size in (([1, 2, 3, 4, 5, 6], (256, 200)),
                                           ([7, 1, 4], (150, 310)))]
    big += [((300, 200), 3, 40)]
    wts = [('vs', n, f, vs) for n in (1, 2, 3, 6, 12) for f in (1., 2., .5)
           for vs in (0, .05, 1., 5., 20., 60., 120., 179.)]
    wts += [('wave', r, c, nan, salt) for r in (1, 2, 3, 5) for c in (2, 4, 9)
            for nan in ((), (0,), (0, 3)) for salt in (0, 1)
            if c > len(nan)]
    lv = (.2, .7, .95, 1.1)
    st = [(p, n, thr, ix) for p in itertools.product(lv, repeat=4)
          for n, thr, ix in ((64, .95, 'time'), (100, .7, 'half'))]
    if not q:
        st += [(p, n, thr, ix) for p in itertools.product(lv, repeat=4)
               for n in (37, 200) for thr in (.5, .95, 1.05)
               for ix in ('time', 'tz')]
    else:
        st += [(p, 200, 1.05, 'tz') for p in itertools.product(lv, repeat=2)]
    st += [((.2, .7, .95, 1.1), n, .95, 'time') for n in (3600, 5000)]
    pos = [(s, v) for s in ((8, 3), (5, 5), (12, 1)) for v in (1., .5, 4., 16.)]
    return [
        Space('random', rand, run_random,
              'grids 0..4 (7) squared x 5 final sizes x 2 seeds'),
        Space('stack', stack, run_stack,
              '10 lists of scales x 6 sizes x seeds, weights varied singly'),
        Space('mask-orders', perm, run_perm,
              'all orders of fields of 4 and 6 (thorough: 9) distinct values, '
              'all fractions in half pixel steps'),
        Space('mask-ties', ties, run_ties,
              'all fields over 3 values of 6 (8) pixels x half pixel steps'),
        Space('mask-fields', big, run_big, 'larger fields, 98-101 fractions'),
        Space('edge-masks', masks, run_masks,
              'all binary masks up to 3x4 (4x4) x filter sizes x thresholds'),
        Space('edge-rectangles', rects, run_rects,
              'rectangles in a 9x11 field and their inverses x filter sizes'),
        Space('scaling', lave, run_lave,
              'all assignments cloud/edge/clear to 6 (9) pixels x mask kinds '
              'x target statistics'),
        Space('fields', series_cases(tier), run_series,
              '3 weight sets x 3 sizes x 4 statistics x 6 fractions x 5 '
              'scalings x seeds'),
        Space('unknown-scaling', ['', 'Basic', 'lave', None], run_badscale,
              'scalings that do not exist'),
        Space('weights', wts, run_weights, 'scale and variability menus'),
        Space('statistics', st, run_stats,
              'all patterns of 4 values over 4 levels x lengths, thresholds'),
        Space('positions', pos, run_pos,
              'all positions in quarter steps x durations x speeds'),
    ]
