"""C17: exposure times by chunk."""
import numpy as np
from vlib import gen, hist, walk
from vlib.boot import spatial
from checks.c16 import region

N = {'quick': 28000, 'thorough': 250000}
RULE = ('walk data made up, random domains (not multiples of the chunk '
        'size), chunk sizes and regions; the result for each chunk is '
        'compared with the exposure times of the particles that started in '
        'it. Distinct by walk, region and chunk size.')
MIN = {'chunks': 20000, 'chunks_without_region': 3000,
       'uneven': 1000, 'exact_partition': 800, 'particles_counted': 10000}
ASSUMPTIONS = ['regions consist of integers 0 and 1; the domain has room '
               'for at least one chunk']
KEY = 'chunk-upper-bound-inclusive'


def bounds(shape, f):
    R, C = shape
    ny, nx = R//f, C//f
    for r in range(ny):
        for q in range(nx):
            yield (r*f, R if r == ny - 1 else (r + 1)*f,
                   q*f, C if q == nx - 1 else (q + 1)*f)


def model(wd, shape, cells, f, local, closed):
    """What the functions return. With `closed`, as the finding has it."""
    out = []
    roi = (cells == 1).astype(int)
    for r0, r1, c0, c1 in bounds(shape, f):
        if not (cells[r0:r1, c0:c1] == 1).any():
            out.append(None)
            continue
        rg = roi
        if local:
            rg = np.zeros(shape, int)
            rg[r0:r1, c0:c1] = roi[r0:r1, c0:c1]
        sel = []
        for p in range(len(wd['xinds'])):
            x, y = wd['xinds'][p][0], wd['yinds'][p][0]
            if closed:
                ok = r0 <= x <= r1 and c0 <= y <= c1
            else:
                ok = r0 <= x < r1 and c0 <= y < c1
            if ok:
                sel.append(p)
        sub = hist.permuted(wd, sel)
        t, full = hist.exposure(sub, rg)
        out.append((t, [a*len(b) for a, b in zip(full, sub['xinds'])]))
    return out


def agrees(got, want):
    if len(got) != len(want):
        return '%d chunks, not %d' % (len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        if w is None:
            if isinstance(g, list) or not np.isnan(g):
                return 'chunk %d has no cell of the region, but %r' % (k, g)
        elif not isinstance(g, list):
            return 'chunk %d: %r' % (k, g)
        elif len(g) != len(w[0]):
            return 'chunk %d has times of %d particles, %d started there' \
                % (k, len(g), len(w[0]))
        elif not np.all(np.abs(np.subtract(g, w[0]))
                        <= 1e-10*np.array(w[1]) + 1e-300):
            return 'chunk %d: %r, not %r' % (k, g, w[0])
    return None


def case(c):
    rng = c.rng
    f = int(rng.integers(1, 8))
    shape = (int(rng.integers(f, 4*f + 4)), int(rng.integers(f, 4*f + 4)))
    avoid = rng.random() < .5   # starts on the first rows of chunks
    wd = hist.synthetic(rng, shape, n=gen.size(rng, 1, 24, 400, .01), maxlen=20,
                        extra=['depth'] if rng.random() < .2 else None)
    if avoid and f > 1:
        # start inside of chunks, where the finding plays no part
        for k in range(len(wd['xinds'])):
            while True:
                x, y = wd['xinds'][k][0], wd['yinds'][k][0]
                if all(not (x == r1 or y == c1)
                       for r0, r1, c0, c1 in bounds(shape, f)):
                    break
                one = hist.synthetic(rng, shape, n=1, maxlen=20)
                for v in walk.BASE:
                    wd[v][k] = one[v][0]
                if 'depth' in wd:
                    wd['depth'][k] = [0.]*len(one['xinds'][0])
    cells = region(rng, shape)
    if rng.random() < .3:       # other types of cells, too
        cells = np.where((cells == 0) & (rng.random(shape) < .5),
                         rng.choice([-1, 2], size=shape),
                         cells.astype(int))
    elev = rng.normal(size=shape)
    if rng.random() < .2:
        elev = elev.astype(np.float32)
    c.desc = dict(walk_data=wd, shape=shape, factor=f, cells=cells)
    keep = walk.snap(wd), cells.copy(), elev.copy()
    hit = any(x[0] == r1 or y[0] == c1
              for x, y in zip(wd['xinds'], wd['yinds'])
              for r0, r1, c0, c1 in bounds(shape, f))
    for name in ('systemwide', 'localized'):
        got = getattr(spatial, name)(wd, elev, cells, f)
        c.check(walk.same_walk(keep[0], wd) is None and
                np.array_equal(keep[1], cells) and
                np.array_equal(keep[2], elev), 'the inputs were changed')
        want = model(wd, shape, cells, f, name == 'localized', False)
        bad = agrees(got, want)
        if bad is not None and hit:
            if agrees(got, model(wd, shape, cells, f, name == 'localized',
                                 True)) is None:
                c.known[KEY] += 1
                c.count('explained_by_finding')
                bad = None
        c.check(bad is None, '%s: %s' % (name, bad), factor=f, shape=shape)
        if not hit:
            c.count('exact_partition')
        c.count('chunks', len(want))
        c.count('chunks_without_region', sum(w is None for w in want))
        c.count('particles_counted', sum(len(w[0]) for w in want if w))
    if shape[0] % f or shape[1] % f:
        c.count('uneven')
    c.sig(wd['xinds'], wd['yinds'], cells, f)
    c.sample(dict(shape=shape, factor=f, particles=len(wd['xinds']),
                  starts_on_bounds=hit))
