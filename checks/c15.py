"""C15: gridding of unstructured data."""
import math
import numpy as np
from vlib import gen
from vlib.boot import pt

N = {'quick': 28000, 'thorough': 200000}
RULE = ('random point sets (scattered, on a lattice, in clusters, in lines, '
        'with duplicates), cell sizes, numbers of neighbors, boundaries and '
        'data; each cell of each grid is compared with a brute-force search '
        'of the nearest points. Distinct by points, cell size and data.')
MIN = {'cells_compared': 100000, 'cells_exact_at_points': 2000,
       'cells_outside': 5000, 'cropped': 300, 'reused': 2000,
       'length_mismatch': 50, 'with_unknown': 1000}
ASSUMPTIONS = ['no more neighbors are asked for than there are points']


def points(rng):
    style = int(rng.integers(6))
    n = gen.size(rng, 4, 59, 800, .01)
    if style == 0:
        xy = rng.uniform(0, 10, size=(n, 2))
    elif style == 1:            # a lattice of whole numbers
        a, b = int(rng.integers(2, 7)), int(rng.integers(2, 7))
        ii, jj = np.indices((a, b))
        xy = np.stack([ii.ravel(), jj.ravel()], 1).astype(float)
        xy = xy[rng.random(len(xy)) < .9]
        if len(xy) < 4:
            xy = np.array([[0., 0.], [3., 1.], [1., 2.], [2., 2.]])
    elif style == 2:            # clusters
        c = rng.uniform(0, 10, size=(3, 2))
        xy = c[rng.integers(0, 3, n)] + rng.normal(size=(n, 2))*.3
    elif style == 3:            # a long band
        xy = np.stack([rng.uniform(0, 30, n), rng.uniform(0, 1.5, n)], 1)
        if rng.random() < .5:
            xy = xy[:, ::-1].copy()
    elif style == 4:            # whole numbers
        xy = rng.integers(-5, 6, size=(n, 2)).astype(float)
        xy = np.unique(xy, axis=0)
        rng.shuffle(xy)
        if len(xy) < 4:
            xy = np.array([[0., 0.], [3., 1.], [1., 2.], [2., 2.]])
    else:                       # with points given twice
        xy = rng.uniform(0, 6, size=(n, 2))
        k = max(1, n//4)
        xy[:k] = xy[rng.integers(k, n, k)] if n > k else xy[:k]
    s = float(rng.choice([1., 1., 30., 1e-4]))
    o = np.array([(0., 0.), (5e5, 4e6), (-91., 29.), (-20., -3.)][
        int(rng.integers(4))])
    if s == 1e-4 and abs(o[0]) > 1000:
        s = 1.
    return xy*s + o, s, style


def polygon(rng, xy):
    """A star-shaped polygon around about the middle."""
    c = (xy.min(0) + xy.max(0))/2 + rng.normal(size=2)*.1*(np.ptp(xy, axis=0))
    k = int(rng.integers(3, 10))
    th = np.sort(rng.uniform(0, 2*np.pi, k))
    r = rng.uniform(.15, 1.2, k)
    return c + np.stack([np.cos(th), np.sin(th)], 1)*r[:, None]*(
        np.ptp(xy, axis=0)/2 + 1e-9*(1 + abs(c)))


def inside(poly, x, y, eps):
    """Whether points are inside (crossing numbers), and whether sure."""
    n = len(poly)
    res = np.zeros(x.shape, bool)
    sure = np.ones(x.shape, bool)
    for a in range(n):
        (x1, y1), (x2, y2) = poly[a], poly[(a + 1) % n]
        cond = (y1 > y) != (y2 > y)
        with np.errstate(all='ignore'):
            xc = x1 + (y - y1)*(x2 - x1)/(y2 - y1)
        res ^= cond & (x < xc)
        # distance from the segment
        d2 = (x2 - x1)**2 + (y2 - y1)**2
        t = np.clip(((x - x1)*(x2 - x1) + (y - y1)*(y2 - y1))
                    / max(d2, 1e-300), 0, 1)
        d = np.hypot(x - x1 - t*(x2 - x1), y - y1 - t*(y2 - y1))
        sure &= d > eps
    return res, sure


def strip(a):
    ok = ~np.isnan(a)
    r, q = np.flatnonzero(ok.any(1)), np.flatnonzero(ok.any(0))
    return a[r[0]:r[-1] + 1, q[0]:q[-1] + 1]


def case(c):
    rng = c.rng
    xy, s, style = points(rng)
    n = len(xy)
    ext = np.ptp(xy, axis=0)
    if style in (1, 4) and rng.random() < .7:
        cs = s*float(rng.choice([1., .5, 2.]))
    else:
        cs = float(max(ext)/rng.uniform(2, 25))
    if rng.random() < .05 and ext[0] > 0 and ext[1] > 0:
        # points just beyond a whole number of cells
        cs = float(ext[int(rng.integers(2))]/(int(rng.integers(2, 20))
                                              + 10**rng.uniform(-9, -3)))
    if not cs > 0:
        cs = s
    while (ext[0]/cs + 2)*(ext[1]/cs + 2) > 4000:
        cs *= 2
    k = int(min(n, rng.choice([1, 1, 2, 3, 3, 5, n])))
    data = [rng.normal(size=n)*float(rng.choice([1, 100.])),
            rng.integers(-5, 6, size=n), np.full(n, 2.5)][
                int(rng.integers(3))]
    bound = polygon(rng, xy) if rng.random() < .6 else None
    crop = bool(rng.integers(2))
    c.desc = dict(points=xy, cellsize=cs, k=k, data=data, boundary=bound,
                  crop=crop)
    form = int(rng.integers(3))
    coords = [tuple(float(v) for v in p) for p in xy] if form == 0 else \
        [[float(v) for v in p] for p in xy] if form == 1 else xy.copy()
    q = data.tolist() if rng.random() < .5 else data.copy()
    b = None if bound is None else (bound.tolist() if rng.random() < .5
                                    else bound.copy())
    keep = [repr(coords), repr(q), repr(b)]
    kw = {}
    if b is not None:
        kw['boundary'] = b
    if not (k == 3 and rng.random() < .5):
        kw['k_nearest_neighbors'] = k
    if not crop or rng.random() < .5:
        kw['crop'] = crop
    if rng.random() < .04:
        try:
            pt.unstruct2grid(coords, list(q) + [1.], cs, **kw)
        except ValueError:
            c.count('length_mismatch')
        else:
            c.fail('data of another length were accepted')
    if b is not None:
        # (nothing is said if nothing is left)
        gx, gy = frame(xy, cs)[0]
        X, Y = np.meshgrid(xy[:, 0].min() + cs*np.arange(gx),
                           xy[:, 1].min() + cs*np.arange(gy))
        r, sure = inside(bound, X, Y, 1e-7*cs)
        if not r.any() or not sure.all():
            b = bound = None
            kw.pop('boundary', None)
            keep[2] = repr(b)
    f, grid = pt.unstruct2grid(coords, q, cs, **kw)
    c.check([repr(coords), repr(q), repr(b)] == keep,
            'the inputs were changed')
    judge(c, xy, cs, k, data, bound, crop, grid)
    for _ in range(2):
        d2 = [rng.normal(size=n), rng.integers(0, 9, size=n),
              rng.normal(size=n).astype(np.float32)][int(rng.integers(3))]
        g = d2.tolist() if rng.random() < .4 else d2.copy()
        was = repr(g)
        out = f(g)
        c.check(repr(g) == was, 'the function returned changed its data')
        judge(c, xy, cs, k, np.asarray(g, float), bound, crop, out)
        c.count('reused')
        again = np.array(out)
        out[:] = -1
        c.check(repr(g) == was, 'the grid is the data, not a copy')
        c.check(np.array_equal(f(g), again, equal_nan=True),
                'the function returned gave two results for the same data')
    if rng.random() < .4 and not (crop and bound is not None):
        # with values that are unknown
        nan = rng.random(n) < rng.choice([.1, .4])
        d0 = rng.normal(size=n)
        d0[nan] = 0
        d = np.where(nan, np.nan, d0)
        g = d.tolist() if rng.random() < .3 else d.copy()
        was = repr(g)
        out = f(g)
        c.check(repr(g) == was, 'the function returned changed its data')
        base, hit = f(d0), f(nan.astype(float)) > 0
        c.check(np.array_equal(np.isnan(out), hit | np.isnan(base)) and
                np.array_equal(out[~hit], base[~hit], equal_nan=True),
                'unknown values have to make just the cells unknown that '
                'use them')
        first = pt.unstruct2grid(coords, g, cs, **kw)[1]
        c.check(np.array_equal(first, out, equal_nan=True), 'the first grid '
                'differs from that of the function for the same data')
        c.count('with_unknown')
    c.sig(xy, cs, k, data)
    c.sample(dict(points=n, cellsize=cs, k=k, shape=grid.shape,
                  boundary=bound is not None, crop=crop))


def frame(xy, cs):
    """Possible numbers of columns and rows (several if rounding decides)."""
    out = []
    for e in np.ptp(xy, axis=0):
        v = e/cs
        o = {int(math.ceil(v*(1 + 1e-12) - 1e-12)) + 1,
             int(math.ceil(v*(1 - 1e-12) - 1e-9)) + 1,
             int(math.ceil(v)) + 1}
        out.append((int(math.ceil(v)) + 1, o))
    return (out[0][0], out[1][0]), out[0][1], out[1][1]


def judge(c, xy, cs, k, data, bound, crop, grid):
    data = np.asarray(data, float)
    (nx, ny), xs, ys = frame(xy, cs)
    c.check(isinstance(grid, np.ndarray) and grid.ndim == 2, 'not a grid')
    if bound is None or not crop:
        c.check(grid.shape[0] in ys and grid.shape[1] in xs,
                'the grid does not cover the extent', shape=grid.shape,
                expected=(ny, nx))
        ny, nx = grid.shape
    elif len(xs) > 1 or len(ys) > 1:
        return
    x0, y0 = xy.min(0)
    X, Y = np.meshgrid(x0 + cs*np.arange(nx), y0 + cs*np.arange(ny)[::-1])
    D = np.hypot(X.ravel()[:, None] - xy[:, 0], Y.ravel()[:, None] - xy[:, 1])
    # rounding of coordinates matters for the distances
    eps = 4e-16*(abs(xy).max() + cs*(nx + ny))
    o = np.argsort(D, axis=1, kind='stable')
    Ds = np.take_along_axis(D, o, 1)
    vals = data[o]
    near, nv = Ds[:, :k], vals[:, :k]
    lo = np.where(True, nv.min(1), 0)
    hi = nv.max(1)
    clear = np.ones(len(D), bool)
    if k < Ds.shape[1]:
        clear = Ds[:, k] - Ds[:, k - 1] > 8*eps
    at = near[:, 0] <= 4*eps
    if k == 1:
        want, tol = nv[:, 0], np.zeros(len(D))
    else:
        w = 1/(near + 1e-100)
        with np.errstate(all='ignore'):
            want = (w*nv).sum(1)/w.sum(1)
        with np.errstate(all='ignore'):
            rel = np.where(near[:, 0] > 0, 8*eps/near[:, 0], 0)
        tol = (1e-12 + 4*rel)*np.abs(data).max()
        # points so close that rounding decides on their weights
        same = (near[:, 0] <= 1e5*eps) & (near[:, 1] <= 1e5*eps)
        exact = (near[:, 0] == 0) & (near[:, 1] > 1e5*eps)
        vague = same | ((near[:, 0] > 0) & (near[:, 0] <= 1e5*eps))
        clear &= ~vague | exact
        # at a point (within rounding), its value
        one = at & (near[:, 1] > 1e9*eps)
        tol = np.where(one, 1e-7*np.abs(data).max(), tol)
        want = np.where(one, nv[:, 0], want)
        clear |= one & (near[:, 1] > 1e9*eps)
    want = want.reshape(ny, nx)
    tol = tol.reshape(ny, nx)
    clear = clear.reshape(ny, nx)
    lo, hi = lo.reshape(ny, nx), hi.reshape(ny, nx)
    # ties for the last neighbor: the range of all candidates
    if k < Ds.shape[1]:
        cand = D <= (Ds[:, k - 1] + 8*eps)[:, None]
        lo = np.where(cand, data, np.inf).min(1).reshape(ny, nx)
        hi = np.where(cand, data, -np.inf).max(1).reshape(ny, nx)
    if bound is not None:
        ins, sure = inside(bound, X, Y, 1e-7*cs)
        want = np.where(ins, want, np.nan)
        full = want
        c.count('cells_outside', (~ins).sum())
        if crop:
            ok = ~np.isnan(full)
            r, q = np.flatnonzero(ok.any(1)), np.flatnonzero(ok.any(0))
            cut = np.ix_(range(r[0], r[-1] + 1), range(q[0], q[-1] + 1))
            c.check(grid.shape == full[cut].shape,
                    'cropping did not remove the all-NaN borders, or more',
                    shape=grid.shape, expected=full[cut].shape)
            want, tol, clear, lo, hi = [a[cut] for a in (want, tol, clear,
                                                         lo, hi)]
            at = at.reshape(ny, nx)[cut]
            if full[cut].shape != full.shape:
                c.count('cropped')
    at = at.reshape(want.shape)
    c.check(grid.shape == want.shape, 'shape', shape=grid.shape,
            expected=want.shape)
    nan = np.isnan(want)
    c.check(np.array_equal(np.isnan(grid), nan), 'cells outside of the '
            'boundary (and only those) have to be NaN',
            at=np.argwhere(np.isnan(grid) != nan)[:5])
    m = ~nan
    slack = 1e-9*(np.abs(lo) + np.abs(hi))
    c.check(np.all((grid[m] >= (lo - slack)[m]) & (grid[m] <= (hi + slack)[m])
                   ), 'a cell is out of the range of its nearest points',
            at=np.argwhere(m & ((grid < lo - slack) | (grid > hi + slack)))[
                :5])
    m &= clear
    bad = m & ~(np.abs(grid - want) <= tol)
    c.check(not bad.any(), 'a cell is not the %s of its nearest points'
            % ('value' if k == 1 else 'weighted mean'),
            at=np.argwhere(bad)[:5], got=grid[bad][:5], want=want[bad][:5])
    c.count('cells_compared', m.sum())
    c.count('cells_exact_at_points', (m & at).sum())
