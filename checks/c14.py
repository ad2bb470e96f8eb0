"""C14: conversion of coordinates and indices."""
import numpy as np
from vlib import gen, walk
from vlib.boot import pt

N = {'quick': 96000, 'thorough': 800000}
RULE = ('random rasters, origins (also large and negative), cell sizes from '
        '1e-5 degrees to kilometers, and locations inside and around the '
        'raster; round trips in both directions. Distinct by raster and '
        'locations.')
MIN = {'index_round_trips': 20000, 'coordinate_round_trips': 20000,
       'points_of_grids': 10000}
KEY = 'gridded-row-off-by-one'


def case(c):
    rng = c.rng
    L, W = gen.size(rng, 1, 399, 50000), gen.size(rng, 1, 399, 50000)
    cs = [1, 1., 30, .1, 2.5, 1e-5, 2.7e-4, 1000., float(rng.uniform(.01,
                                                                     100))][
        int(rng.integers(9))]
    org = [(0, 0), (0., 0.), (500000., 4.5e6), (-91.3, 29.4), (-3, 7),
           tuple(rng.uniform(-1e4, 1e4, size=2)),
           tuple(rng.uniform(-5e6, 5e6, size=2))][int(rng.integers(7))]
    if rng.random() < .2:
        org = list(org)
    size = (L, W)
    c.desc = dict(origin=org, size=size, cellsize=cs)
    n = int(rng.integers(1, 6))
    wd = {k: [] for k in walk.BASE}
    for _ in range(n):
        k = gen.size(rng, 1, 11, 1000, .005)
        wd['xinds'].append([int(v) for v in rng.integers(0, L, size=k)])
        wd['yinds'].append([int(v) for v in rng.integers(0, W, size=k)])
        wd['travel_times'].append([float(v) for v in
                                   np.cumsum(rng.random(k))])
    if rng.random() < .3:
        wd['depth'] = [[1.5]*len(x) for x in wd['xinds']]
    old = walk.snap(wd)
    out = pt.ind2coord(wd, org, size, cs)
    for k in old:
        c.check(k in out and walk.same_walk({k: old[k]}, {k: out[k]}) is None,
                'the conversion changed the walk data', name=k)
    c.check(set(out) == set(old) | {'xcoord', 'ycoord'},
            'variables after the conversion', names=sorted(out))
    eps = 1e-9*(abs(org[0]) + abs(org[1]) + cs*(L + W)) + 1e-12*cs
    eps = min(eps, .01*cs)
    for p in range(n):
        xc, yc = out['xcoord'][p], out['ycoord'][p]
        c.check(len(xc) == len(yc) == len(old['xinds'][p]),
                'coordinates are not aligned', particle=p)
        back = pt.coord2ind(list(zip(xc, yc)), org, size, cs)
        want = list(zip(old['xinds'][p], old['yinds'][p]))
        c.check([tuple(int(v) for v in b) for b in back] == want,
                'indices to coordinates and back', indices=want,
                coordinates=list(zip(xc, yc)), back=back)
        c.count('index_round_trips', len(want))
        for (i, j), x, y in zip(want, xc, yc):
            c.check(org[0] - eps <= x <= org[0] + W*cs + eps and
                    org[1] - eps <= y <= org[1] + L*cs + eps,
                    'coordinates of a cell are not in the raster',
                    cell=(i, j), xy=(x, y))
            # orientation and scale, relative to the lower left
            c.check(abs((x - org[0])/cs - j) <= .5 + 1e-6 and
                    abs((y - org[1])/cs - (L - i)) <= 1 + 1e-6,
                    'coordinates are not those of the cell', cell=(i, j),
                    xy=(x, y))
    m = gen.size(rng, 1, 11, 1000, .005)
    pts = [(float(org[0] + u*cs), float(org[1] + v*cs)) for u, v in
           zip(rng.uniform(-3, W + 3, m), rng.uniform(-3, L + 3, m))]
    if rng.random() < .3:
        pts = [list(q) for q in pts]
    if rng.random() < .2:
        pts = np.array(pts)
    keep = repr(pts)
    inds = pt.coord2ind(pts, org, size, cs)
    c.check(repr(pts) == keep, 'the coordinates given were changed')
    c.check(len(inds) == m, 'number of indices')
    wd2 = dict(xinds=[[i[0]] for i in inds], yinds=[[i[1]] for i in inds],
               travel_times=[[0.]]*m)
    o2 = pt.ind2coord(wd2, org, size, cs)
    for q in range(m):
        c.check(all(int(v) == v for v in inds[q]), 'indices are not integer')
        dx = abs(o2['xcoord'][q][0] - pts[q][0])
        dy = abs(o2['ycoord'][q][0] - pts[q][1])
        c.check(dx <= cs/2 + eps and dy <= cs/2 + eps, 'coordinates to '
                'indices and back is off by more than half a cell',
                point=pts[q], index=inds[q], off=(dx, dy), cellsize=cs)
        c.count('coordinate_round_trips')
    if c.idx % 16 == 0:
        gridded(c, cs)
    c.sig(size, cs, org, old['xinds'])
    c.sample(dict(origin=org, size=size, cellsize=cs, points=pts[:3],
                  indices=inds[:3]))


def gridded(c, cs):
    """Points of data gridded by unstruct2grid, found by their coordinates."""
    rng = c.rng
    L, W = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    cs = float(2.**int(rng.integers(-3, 8)))
    org = [(0., 0.), (624464., 3347078.), (-91., 29.), (-64., 512.)][
        int(rng.integers(4))]
    rr, cc = [v.ravel() for v in np.indices((L, W))]
    keep = rng.random(L*W) < .8
    # (the outermost rows and columns are there)
    keep |= (rr == 0) | (cc == 0) | (rr == L-1) | (cc == W-1)
    o = rng.permutation(np.flatnonzero(keep))
    rr, cc = rr[o], cc[o]
    xy = [(org[0] + cs*j, org[1] + cs*(L-1-i)) for i, j in zip(rr, cc)]
    values = rng.permutation(len(o)).astype(float) + 1
    f, g = pt.unstruct2grid(xy, list(values), cs, int(rng.choice([1, 3])))
    c.check(g.shape == (L, W), 'shape of the grid', shape=g.shape,
            want=(L, W))
    low = (min(x for x, y in xy), min(y for x, y in xy))
    inds = pt.coord2ind(xy, low, g.shape, cs)
    for (i, j), r, k, v in zip(inds, rr, cc, values):
        c.check(abs(g[r, k] - v) <= 1e-9*v, 'a point is not in its cell of '
                'the grid', cell=(r, k), value=g[r, k], want=v)
        if (i, j) == (r + 1, k):
            c.known[KEY] += 1
        else:
            c.check((i, j) == (r, k), 'a point of gridded data is found in '
                    'another cell', got=(i, j), cell=(r, k), shape=g.shape)
    c.count('points_of_grids', len(o))
