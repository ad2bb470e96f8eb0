"""C19: nourishment area."""
import numpy as np
from scipy.ndimage import gaussian_filter
from vlib import gen, hist, walk
from vlib.boot import pt

N = {'quick': 30000, 'thorough': 400000}
RULE = ('walk data made up and from runs, random smoothing and clipping; '
        'the map is recomputed, also from permuted particles and with other '
        'variables in the data. Distinct by walk and parameters.')
MIN = {'maps': 8000, 'cells': 300000, 'unsmoothed': 1000, 'clipped': 800,
       'permuted': 3000}
ASSUMPTIONS = ['the clipping percentile is above 0 visits; smoothing is '
               'scipy.ndimage.gaussian_filter']
CLIPS = [100, 100., 99.5, 99, 95, 80]
SIGMAS = [0, 0., .3, .7, 1, 2.5, .13, 5.]


def counts(wd, shape):
    v = np.zeros(shape)
    for X, Y in zip(wd['xinds'], wd['yinds']):
        for x, y in zip(X, Y):
            v[x, y] += 1
    return v


def finish(raw, sigma, clip, normal):
    """(map, where NaN for sure, where maybe NaN, clipped?), or None."""
    vmax = float(np.percentile(raw, clip))
    if vmax <= 0:
        return None
    v = np.minimum(raw, vmax)
    if sigma > 0:
        v = gaussian_filter(v, sigma=sigma)
        lo, hi = v.min(), v.max()
        if hi - lo <= 1e-9*hi:
            return None
        if lo == 0:     # (zeros are exact)
            maybe = sure = v == 0
        else:
            maybe = v <= lo + 1e-10*hi
            sure = np.zeros(v.shape, bool)
    else:
        maybe = sure = v == 0
    if normal:
        v = v/v.max()
    return v, sure, maybe, vmax < raw.max()


def compare(c, got, ref, msg):
    v, sure, maybe, clipped = ref
    c.check(isinstance(got, np.ndarray) and got.shape == v.shape,
            msg + ': shape')
    nan = np.isnan(got)
    c.check(nan[sure].all() and not nan[~maybe].any() and
            (nan.any() or not maybe.any()),
            msg + ': the lowest cells, and only those, have to be NaN',
            at=np.argwhere((sure & ~nan) | (nan & ~maybe))[:5], got=got)
    m = ~nan
    bad = m & ~(np.abs(got - v) <= 1e-9*v.max())
    c.check(not bad.any(), msg, at=np.argwhere(bad)[:5], got=got[bad][:5],
            want=v[bad][:5])
    c.count('cells', v.size)
    c.count('maps')
    if clipped:
        c.count('clipped')


def arguments(rng):
    kw, sigma, clip = {}, .7, 99.5
    if rng.random() < .7:
        sigma = kw['sigma'] = SIGMAS[int(rng.integers(8))]
    if rng.random() < .7:
        clip = kw['clip'] = CLIPS[int(rng.integers(6))]
    return kw, sigma, clip


def walks(c, minlen=1):
    rng = c.rng
    if rng.random() < .1:
        sc, ref, wd = hist.real(rng, extra=True, n=8)
        return wd, sc.shape
    shape = (int(rng.integers(2, 15)), int(rng.integers(2, 15)))
    return hist.synthetic(rng, shape, n=gen.size(rng, 1, 24, 500, .01),
                          maxlen=40, minlen=minlen), shape


def case(c):
    rng = c.rng
    wd, shape = walks(c)
    raw = counts(wd, shape)
    old = walk.snap(wd)
    for _ in range(2):
        kw, sigma, clip = arguments(rng)
        c.desc = dict(walk_data=wd, shape=shape, options=kw)
        size = [shape, np.zeros(shape).shape, list(shape)][
            int(rng.integers(3))]
        got = pt.nourishment_area(wd, size, **kw)
        c.check(walk.same_walk(old, wd) is None, 'walk data were changed')
        ref = finish(raw, sigma, clip, True)
        if ref is None:
            c.count('degenerate')
            continue
        compare(c, got, ref, 'nourishment area')
        c.check(abs(np.nanmax(got) - 1) < 1e-9 and np.nanmin(got) >= 0,
                'not normalized', max=np.nanmax(got), min=np.nanmin(got))
        if sigma == 0:
            c.count('unsmoothed')
        w2 = hist.permuted(wd, [int(v) for v in rng.permutation(
            len(wd['xinds']))])
        w2['depth'] = [[1.]*len(x) for x in w2['xinds']]
        if rng.random() < .5:
            w2['travel_times'] = [[2*v for v in t]
                                  for t in w2['travel_times']]
        if rng.random() < .3:
            k = list(w2)
            w2 = {n: w2[n] for n in reversed(k)}
        again = pt.nourishment_area(w2, shape, **kw)
        compare(c, again, ref, 'nourishment area of the same particles in '
                'another order')
        c.count('permuted')
        c.sig(wd['xinds'], wd['yinds'], sigma, clip)
    c.sample(dict(shape=shape, options=kw, particles=len(wd['xinds'])))
