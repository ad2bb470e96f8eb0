"""C20: nourishment time."""
import numpy as np
from vlib import hist, walk
from vlib.boot import pt
from checks.c19 import arguments, compare, finish, walks

N = {'quick': 30000, 'thorough': 400000}
RULE = ('walk data made up and from runs, random smoothing and clipping; '
        'the map is recomputed, also from permuted particles and with other '
        'variables in the data. Distinct by walk and parameters.')
MIN = {'maps': 7000, 'cells': 250000, 'unsmoothed': 800, 'clipped': 1000,
       'permuted': 3000}
ASSUMPTIONS = ['the clipping percentile is above 0; smoothing is '
               'scipy.ndimage.gaussian_filter']


def mean_times(wd, shape):
    n, t = np.zeros(shape), np.zeros(shape)
    for X, Y, T in zip(wd['xinds'], wd['yinds'], wd['travel_times']):
        for j in range(1, len(X) - 1):
            n[X[j], Y[j]] += 1
            t[X[j], Y[j]] += .5*((T[j] - T[j - 1]) + (T[j + 1] - T[j]))
    return np.where(n > 0, t/np.maximum(n, 1), 0.)


def case(c):
    rng = c.rng
    wd, shape = walks(c)
    raw = mean_times(wd, shape)
    old = walk.snap(wd)
    for _ in range(2):
        kw, sigma, clip = arguments(rng)
        c.desc = dict(walk_data=wd, shape=shape, options=kw)
        got = pt.nourishment_time(wd, shape, **kw)
        c.check(walk.same_walk(old, wd) is None, 'walk data were changed')
        ref = finish(raw, sigma, clip, False)
        if ref is None:
            c.count('degenerate')
            continue
        compare(c, got, ref, 'nourishment time')
        c.check(np.nanmin(got) >= 0, 'a negative time')
        if sigma == 0:
            c.count('unsmoothed')
        w2 = hist.permuted(wd, [int(v) for v in rng.permutation(
            len(wd['xinds']))])
        if rng.random() < .5:
            w2['depth'] = [[1.]*len(x) for x in w2['xinds']]
        again = pt.nourishment_time(w2, shape, **kw)
        compare(c, again, ref, 'nourishment time of the same particles in '
                'another order')
        c.count('permuted')
        c.sig(wd['xinds'], wd['yinds'], sigma, clip)
    c.sample(dict(shape=shape, options=kw, particles=len(wd['xinds'])))
