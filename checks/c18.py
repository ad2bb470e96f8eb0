"""C18: exposure thresholds by chunk."""
import numpy as np
from scipy.stats import gaussian_kde
from vlib import gen
from vlib.boot import spatial

N = {'quick': 9000, 'thorough': 100000}
RULE = ('random lists of exposure times (skewed, in clusters, few, equal, '
        'zeros, NaN) for random grids of chunks; thresholds without and '
        'with smoothing are recomputed, and random maps (outliers, NaN, '
        'equal values) are smoothed. Distinct by times and map.')
MIN = {'chunks': 6000, 'chunks_nan': 2000, 'thresholds': 10000,
       'cells_smoothed': 50000, 'outliers_left_out': 5000}
ASSUMPTIONS = ['the density is a Gaussian kernel estimate (scipy.stats.'
               'gaussian_kde), and thresholds are judged to 3/1000 of the '
               'range']


def times(rng):
    n = gen.size(rng, 0, 29, 600, .02)
    r = int(rng.integers(8))
    s = float(rng.choice([1., 60., 3600., 1e5]))
    if r == 0:
        t = rng.exponential(size=n)
    elif r == 1:
        t = rng.uniform(1, 2, n)
    elif r == 2:
        t = np.concatenate([rng.normal(5, .2, n//2), rng.normal(
            20, 1, n - n//2)])
    elif r == 3:
        t = rng.choice([1., 2., 3., 4., 5., 6.], size=n)
    elif r == 4:
        t = np.exp(rng.normal(size=n))
    elif r == 5:
        t = np.full(n, 3.)
    elif r == 6:
        k = int(rng.integers(1, 7))
        t = rng.choice(rng.uniform(1, 9, k), size=n)
    else:
        t = rng.exponential(size=n)
        t[rng.random(n) < .5] = 0.
    t = [float(abs(v)*s) for v in t]
    if rng.random() < .2:
        t += [0.]*int(rng.integers(1, 6))
    if rng.random() < .1 and t:
        t[int(rng.integers(len(t)))] = float('nan')
    return t


def thresholds(t):
    f = [v for v in t if v != 0 and not np.isnan(v)]
    if len(set(f)) < 5:
        return None
    x = np.linspace(min(f), max(f), 1000)
    y = np.cumsum(gaussian_kde(f)(x))
    y /= y[-1]
    return [x[np.argmax(y >= q)] for q in (.5, .75, .9)], \
        min(f), max(f)


def smooth(a, w, thr):
    """Possible ranges of a smoothed map."""
    lo, hi = np.full(a.shape, np.nan), np.full(a.shape, np.nan)
    left = 0
    h = w//2
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if np.isnan(a[i, j]):
                continue
            v = a[max(i - h, 0):i + h + 1, max(j - h, 0):j + h + 1].ravel()
            v = v[~np.isnan(v)]
            m = np.median(v)
            d = np.abs(v - m)
            lim = thr*np.median(d)
            e = 1e-12*(abs(m) + lim + 1e-300)
            sure = v[d <= lim - e] if lim > e else v[d <= e]
            maybe = v[d <= lim + e]
            if len(maybe) == 0:
                continue
            if len(sure) == len(maybe):
                lo[i, j] = hi[i, j] = sure.mean()
            elif len(sure) == 0:
                lo[i, j], hi[i, j] = -np.inf, np.inf    # (or NaN)
            else:
                lo[i, j], hi[i, j] = maybe.min(), maybe.max()
            left += len(maybe) < len(v)
    return lo, hi, left


def agree(c, got, lo, hi, msg):
    c.check(got.shape == lo.shape, msg + ': shape', got=got.shape,
            want=lo.shape)
    nan = np.isnan(lo)
    open_ = np.isinf(lo)
    c.check(np.array_equal(np.isnan(got) & ~open_, nan),
            msg + ': NaN cells', got=got, want=lo)
    nan |= open_
    tol = 1e-9*(np.abs(lo) + np.abs(hi)) + 1e-300
    bad = ~nan & ~((got >= lo - tol) & (got <= hi + tol))
    c.check(not bad.any(), msg, at=np.argwhere(bad)[:5], got=got[bad][:5],
            want=lo[bad][:5])
    c.count('cells_smoothed', (~nan).sum())


def case(c):
    rng = c.rng
    ny, nx, f = int(rng.integers(1, 6)), int(rng.integers(1, 6)), \
        int(rng.integers(1, 6))
    shape = (ny*f + int(rng.integers(0, f)), nx*f + int(rng.integers(0, f)))
    data = [np.nan if rng.random() < .1 else times(rng)
            for _ in range(ny*nx)]
    td = [1, 1., 60., 86400.][int(rng.integers(4))]
    c.desc = dict(exposure=data, shape=shape, factor=f, timedelta=td)
    elev = rng.normal(size=shape)
    keep, ke = repr(data), elev.copy()
    raw = spatial.compute_thresholds(data, elev, td, f, window_size=1)
    c.check(repr(data) == keep and np.array_equal(elev, ke),
            'the inputs were changed')
    c.check(len(raw) == 3, 'three maps')
    raw = [np.asarray(r) for r in raw]
    for r in raw:
        c.check(r.shape == (ny, nx), 'shape of the maps', got=r.shape,
                want=(ny, nx))
    for k, t in enumerate(data):
        got = [float(r[k//nx, k % nx]) for r in raw]
        want = thresholds(t) if isinstance(t, list) else None
        c.count('chunks')
        if want is None:
            c.check(all(np.isnan(g) for g in got), 'fewer than 5 distinct '
                    'non-zero times, but not NaN', chunk=k, times=t, got=got)
            c.count('chunks_nan')
            continue
        q, a, b = want
        c.check(not any(np.isnan(g) for g in got), 'NaN for a chunk with '
                'enough times', chunk=k, times=t, got=got)
        c.check(got[0] <= got[1] <= got[2], 'thresholds are not in order',
                chunk=k, got=got)
        e = 1e-9*b
        c.check(a - e <= got[0]*td and got[2]*td <= b + e, 'thresholds are '
                'out of the range of the times', chunk=k, got=got,
                range=(a/td, b/td))
        for g, w, name in zip(got, q, (50, 75, 90)):
            c.check(abs(g*td - w) <= 3e-3*(b - a) + e, 'E%d' % name, chunk=k,
                    got=g, want=w/td, times=t)
            c.count('thresholds')
    # smoothed
    kw = {}
    w, thr = 5, 3
    if rng.random() < .6:
        w = kw['window_size'] = int(rng.choice([1, 2, 3, 5, 7]))
    if rng.random() < .6:
        thr = kw['threshold'] = [0, 1, 1.5, 2, 3, 10][int(rng.integers(6))]
    out = spatial.compute_thresholds(data, elev, td, f, **kw)
    for r, o in zip(raw, out):
        lo, hi, _ = smooth(r, w, thr)
        agree(c, np.asarray(o), lo, hi, 'smoothed thresholds (window %d, '
              'threshold %s)' % (w, thr))
    # smoothing of maps of any kind
    for _ in range(2):
        s = (int(rng.integers(1, 12)), int(rng.integers(1, 12)))
        a = [rng.normal(size=s), rng.integers(0, 4, size=s).astype(float),
             np.exp(2*rng.normal(size=s)),
             5 + .1*rng.normal(size=s)][int(rng.integers(4))]
        if rng.random() < .3:
            a *= 10**rng.uniform(-12, 12)
        if rng.random() < .6:
            a[rng.random(s) < .1] *= 1000
        if rng.random() < .6:
            a[rng.random(s) < rng.uniform(0, .8)] = np.nan
        w = int(rng.choice([1, 2, 3, 4, 5, 7, 31]))
        thr = [0, .5, 1, 2, 3, 5.5][int(rng.integers(6))]
        was = a.copy()
        got = spatial.median_absolute_deviation_filter(a, w, thr)
        c.check(np.array_equal(a, was, equal_nan=True),
                'the map given was changed')
        lo, hi, left = smooth(a, w, thr)
        c.count('outliers_left_out', left)
        agree(c, got, lo, hi, 'smoothed map (window %d, threshold %s)'
              % (w, thr))
    c.sig(keep, was, w, thr)
    c.sample(dict(chunks=(ny, nx), factor=f, E50=raw[0], E90=raw[2]))
