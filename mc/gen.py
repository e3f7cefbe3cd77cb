"""Deterministic building blocks for the drivers (no random numbers)."""
import itertools
import math
import numpy as np
import pandas as pd


def hash01(n, salt=0):
    """n reproducible values in [0, 1), without structure (an integer hash)."""
    x = np.arange(1, n + 1, dtype=np.uint64) + np.uint64(salt * 1000003)
    with np.errstate(over='ignore'):
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
        x = x ^ (x >> np.uint64(31))
    return (x >> np.uint64(11)).astype(float) / float(1 << 53)


def tindex(n, dt=1.0, tz=None, start='2020-06-01 12:00:00'):
    t0 = pd.Timestamp(start)
    ix = t0 + pd.to_timedelta(np.round(np.arange(n) * dt * 1e9).astype('int64'),
                              unit='ns')
    ix = pd.DatetimeIndex(ix)
    return ix.tz_localize(tz) if tz else ix


LABELS = {
    'str': ['B', 'A', 'D', 'C', 'F', 'E', 'H', 'G', 'J', 'I', 'L', 'K'],
    'int': [3, 1, 2, 0, 7, 5, 9, 4, 11, 6, 8, 10],
    'cmb': ['CMB-010', 'CMB-002', 'CMB-011', 'CMB-001', 'CMB-100', 'CMB-020',
            'CMB-003', 'CMB-030', 'CMB-004', 'CMB-012', 'CMB-005', 'CMB-022'],
    # names within names
    'nest': ['A11', 'A1', '1', '11', 'A', '1A', 'B11', 'A111', 'B', 'BA11',
             '111', 'AB'],
    'mix': ['B', 3, 'A', 1, 'C', 2, 'D', 0, 'E', 4, 'F', 5],
}


def labels(kind, n):
    base = LABELS[kind]
    more = {'str': 'Z{}', 'cmb': 'CMB-2{:02d}'}
    if n > 80:
        return base[:12] + [more[kind].format(7919 * i % 10007)
                            if kind in more else 100 + 7919 * i % 10007
                            for i in range(12, n)]
    return base[:n] + [more[kind].format(97 * i % n) if kind in more
                       else 100 + 97 * i % 89 for i in range(12, n)]


def snapshot(obj):
    """A deep, comparable image of an argument."""
    if isinstance(obj, pd.DataFrame):
        return ('DF', [str(d) for d in obj.dtypes],
                snapshot(obj.index), snapshot(obj.columns),
                [snapshot(obj.iloc[:, i].values) for i in range(obj.shape[1])])
    if isinstance(obj, pd.Series):
        return ('S', str(obj.dtype), repr(obj.name), snapshot(obj.index),
                snapshot(obj.values))
    if isinstance(obj, pd.DatetimeIndex):
        return ('T', str(obj.dtype), obj.asi8.tobytes(), repr(obj.name))
    if isinstance(obj, pd.Index):
        return ('I', str(obj.dtype), repr(list(obj)), repr(obj.name))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ('O', obj.shape, [snapshot(v) for v in obj.ravel()])
        return ('A', str(obj.dtype), obj.shape,
                np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, dict):
        return ('D', [(repr(k), snapshot(v)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [snapshot(v) for v in obj])
    if hasattr(obj, '__array__') and not np.isscalar(obj):
        return snapshot(np.asarray(obj))
    return repr(obj)
