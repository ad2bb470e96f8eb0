"""Generation of model domains (`Scenario`) for the code under test.

A scenario holds the arrays a user would give, in the user's conventions, and
makes `modelParams` out of copies of them.
"""
import numpy as np
from . import boot
from .boot import pt

ABSENT = '<absent>'


def dyadic(rng, lo, hi, size, bits=4):
    """Random multiples of 2**-bits in [lo, hi]."""
    k = 2**bits
    return rng.integers(int(lo*k), int(hi*k) + 1, size=size) / k


class Scenario:
    """Arrays and parameters as the user gives them."""

    def __init__(self):
        self.arrays = {}       # depth, stage, topography, qx, qy, u, v
        self.options = {}      # dx, theta, gamma, ... (only those given)
        self.kind = ()

    def params(self, **override):
        p = pt.modelParams()
        for k, a in self.arrays.items():
            setattr(p, k, a.copy())
        for k, a in self.options.items():
            if isinstance(a, np.ndarray):
                a = a.copy()
            elif isinstance(a, list):
                a = list(a)
            setattr(p, k, a)
        for k, a in override.items():
            setattr(p, k, a)
        return p

    @property
    def shape(self):
        for k in ('depth', 'stage', 'qx', 'u'):
            if k in self.arrays:
                return self.arrays[k].shape

    def describe(self):
        d = {k: a for k, a in self.options.items()}
        d.update(self.arrays)
        d['kind'] = self.kind
        return d


DEPTHS = ['wet', 'islands', 'channel', 'pits', 'checker', 'uniform', 'bowl',
          'blocks']
STAGES = ['slope', 'flat', 'noise', 'slope_noise', 'steps']
FLOWS = ['uniform', 'axis', 'diagonal', 'vortex', 'noise', 'zero', 'converge',
         'patchy', 'tiny']


def size(rng, lo, hi, top, often=.015):
    """lo to hi (inclusive), now and then up to many more."""
    if rng.random() < often:
        return int(np.exp(rng.uniform(np.log(hi), np.log(top))))
    return int(rng.integers(lo, hi + 1))


def make_depth(rng, shape, style, dry, near=True):
    L, W = shape
    wet_lo = max(dry*1.5, 0.05) + 0.05
    d = rng.uniform(wet_lo, wet_lo + rng.choice([0.5, 3., 10.]), size=shape)
    low = np.where(rng.random(shape) < 0.5, 0., dry*rng.uniform(0, .9, shape))
    if style == 'wet':
        pass
    elif style == 'islands':
        d = np.where(rng.random(shape) < rng.uniform(.05, .4), low, d)
    elif style == 'channel':
        keep = np.zeros(shape, bool)
        c = int(rng.integers(0, W))
        w = int(rng.integers(0, 3))
        for i in range(L):
            keep[i, max(c - w, 0):c + w + 1] = True
            c = int(np.clip(c + rng.integers(-1, 2), 0, W - 1))
        d = np.where(keep, d, low)
    elif style == 'pits':
        d = np.where(rng.random(shape) < rng.uniform(.1, .3), d, low)
    elif style == 'checker':
        ii, jj = np.indices(shape)
        d = np.where((ii + jj) % 2 == 0, d, low)
    elif style == 'uniform':
        d[:] = float(dyadic(rng, 1, 5, None)) + wet_lo*0
    elif style == 'bowl':
        ii, jj = np.indices(shape)
        r = np.hypot(ii - L/2., jj - W/2.)
        d = wet_lo + (r.max() - r)*rng.uniform(.1, 1)
        d = np.where(r > r.max()*rng.uniform(.6, 1.1), low, d)
    elif style == 'blocks':
        for _ in range(int(rng.integers(1, 4))):
            i, j = int(rng.integers(0, L)), int(rng.integers(0, W))
            d[i:i + int(rng.integers(1, 5)), j:j + int(rng.integers(1, 5))] \
                = 0.
    if near and dry > 0 and rng.random() < .3:
        # some cells exactly at, just over and just below the limit
        m = rng.random(shape)
        d = np.where(m < .05, dry, d)
        d = np.where((m > .05) & (m < .1), dry*1.01, d)
        d = np.where((m > .1) & (m < .15), dry*.99, d)
        d = np.where((m > .15) & (m < .18), np.nextafter(dry, 9.), d)
        d = np.where((m > .18) & (m < .2), np.nextafter(dry, 0.), d)
    if near and rng.random() < .2:
        # very deep, or hardly any water
        deep = d > dry*1.02
        if rng.random() < .5:
            d = np.where(deep, d*10**rng.uniform(1, 3), d)
        elif dry >= 1e-3:
            d = np.where(deep, dry*1.02 + (d - dry*1.02)
                         * 10**rng.uniform(-3, -1), d)
    return d


def make_stage(rng, shape, style):
    L, W = shape
    ii, jj = np.indices(shape)
    base = float(rng.choice([0., 5., 100.] if rng.random() < .92 else
                            [-400., -4000., 3500.]))
    a, b = rng.normal(size=2)*rng.choice([.01, .1, 1.])
    if rng.random() < .15:      # hardly any, or very steep slopes
        if style != 'flat' and rng.random() < .7:
            base = 0.
            k = 10**rng.uniform(-7, -2)
            return (a*ii + b*jj + rng.normal(size=shape)*.1)*k
        a, b = a*300, b*300
    if style == 'slope':
        return base + a*ii + b*jj
    if style == 'flat':
        return np.full(shape, base)
    if style == 'noise':
        return base + rng.normal(size=shape)
    if style == 'slope_noise':
        return base + a*ii + b*jj + rng.normal(size=shape)*.1
    return base + dyadic(rng, -2, 2, shape, 1)


def make_flow(rng, shape, style):
    """Discharge towards higher rows and towards higher columns."""
    L, W = shape
    ii, jj = np.indices(shape)
    mag = float(rng.choice([.01, 1., 1., 5., 100.]))
    if rng.random() < .1:
        mag = float(10**rng.uniform(-4, 5))
    if style == 'uniform':
        t = rng.uniform(0, 2*np.pi)
        r, c = np.full(shape, mag*np.sin(t)), np.full(shape, mag*np.cos(t))
    elif style in ('axis', 'diagonal'):
        dirs = [(1., 0.), (-1., 0.), (0., 1.), (0., -1.)] if style == 'axis' \
            else [(1., 1.), (-1., 1.), (1., -1.), (-1., -1.)]
        a, b = dirs[int(rng.integers(4))]
        r, c = np.full(shape, mag*a), np.full(shape, mag*b)
    elif style in ('vortex', 'converge'):
        y, x = ii - L/2. + .3, jj - W/2. + .2
        s = rng.choice([-1, 1])*mag
        r, c = (s*x, -s*y) if style == 'vortex' else (-s*y, -s*x)
    elif style == 'noise':
        r, c = rng.normal(size=(2,) + shape)*mag
    elif style == 'zero':
        r, c = np.zeros(shape), np.zeros(shape)
    elif style == 'patchy':
        r, c = rng.normal(size=(2,) + shape)*mag
        m = rng.random(shape) < .4
        r[m], c[m] = 0., 0.
    else:  # tiny
        r, c = rng.normal(size=(2,) + shape)*1e-9
    return np.array(r), np.array(c)


def make_cell_type(rng, shape, depth, dry):
    """A user's cell types; 2 = land, 1 = channel, 0 = ocean, -1 = edge."""
    style = int(rng.integers(7))
    ct = np.zeros(shape, int)
    if style == 6:      # wide edges
        k = int(rng.integers(1, 6))
        s = int(rng.integers(4))
        ct[[slice(0, k), slice(-k, None), slice(None), slice(None)][s],
           [slice(None), slice(None), slice(0, k), slice(-k, None)][s]] = -1
    elif style == 0:      # no edges at all
        pass
    elif style == 1:    # edges on some sides
        for s in range(4):
            if rng.random() < .5:
                ct[[slice(0, 1), slice(-1, None), slice(None),
                    slice(None)][s],
                   [slice(None), slice(None), slice(0, 1),
                    slice(-1, None)][s]] = -1
    elif style == 2:    # land in wet places too
        ct[rng.random(shape) < .2] = 2
        ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
    elif style == 3:    # an outlet inside
        ct[int(rng.integers(shape[0])), int(rng.integers(shape[1]))] = -1
    elif style == 4:    # everything mixed
        ct = rng.choice([-1, 0, 1, 2], p=[.03, .5, .3, .17], size=shape)
    else:               # as DeltaRCM has them: an inlet wall, an open sea
        ct[depth <= dry] = 2
        ct[rng.random(shape) < .2] = 1
        ct[0, :] = 2
        ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
        if rng.random() < .5:
            ct[0, :] = 2
    return ct


def scenario(rng, lo=3, hi=14, shape=None, depth=None, stage=None, flow=None,
             cell_type=None, steepest=None, nan=None, near=True, modes=None,
             diff=None, model=None, f32=None, theta=None, gamma=None):
    """A random domain. Arguments fix the aspects named."""
    def pick(x, options):
        return x if x is not None else options[int(rng.integers(len(options)))]

    sc = Scenario()
    if shape is None:
        shape = (int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1)))
        if rng.random() < .01:      # (a long one)
            k = int(rng.integers(2))
            shape = (shape[k], int(rng.integers(130, 300)))[::1 - 2*k]
    # dry depth: absent (0.1) or given
    dry_opt = pick(None, [ABSENT, ABSENT, .1, .01, .5, 0., 1e-3,
                          float(rng.uniform(.01, .6))])
    dry = .1 if dry_opt == ABSENT else dry_opt
    mode = pick(None, modes or ['depth_stage', 'depth_stage', 'depth_topo',
                                'stage_topo'])
    if mode == 'stage_topo':
        near = False    # (rounding of the difference decides otherwise)
    dstyle = pick(depth, DEPTHS)
    sstyle = pick(stage, STAGES)
    fstyle = pick(flow, FLOWS)
    d = make_depth(rng, shape, dstyle, dry, near=near)
    if mode == 'depth_topo' and rng.random() < .5:
        s = make_stage(rng, shape, 'slope_noise')
    else:
        s = make_stage(rng, shape, sstyle)
    r, c = make_flow(rng, shape, fstyle)
    use_nan = rng.random() < .3 if nan is None else nan
    is32 = (rng.random() < .08 and not near) if f32 is None else f32
    uv = rng.random() < .35
    mdl = pick(model, [ABSENT, 'DeltaRCM', 'DeltaRCM', 'other', None])

    if mode == 'depth_stage':
        sc.arrays['depth'], sc.arrays['stage'] = d.copy(), s.copy()
    elif mode == 'depth_topo':
        sc.arrays['depth'], sc.arrays['topography'] = d.copy(), s - d
    else:
        # (a dry bed lies above the water as often as not)
        up = np.where(d <= 0, rng.choice([0., .5], size=shape), 0.)
        sc.arrays['stage'], sc.arrays['topography'] = s.copy(), s - d + up
    if use_nan:
        dead = (d <= 0)
        m = dead & (rng.random(shape) < .6)
        if 'depth' in sc.arrays:
            sc.arrays['depth'][m] = np.nan
        if 'topography' in sc.arrays and rng.random() < .5:
            sc.arrays['topography'][dead & (rng.random(shape) < .6)] = np.nan
        if 'stage' in sc.arrays:
            sc.arrays['stage'][m] = np.nan
        qm = dead & (rng.random(shape) < .5)
        if rng.random() < .4:       # flow unknown in water
            qm |= rng.random(shape) < .08
    else:
        qm = np.zeros(shape, bool)
    one = int(rng.integers(3)) if use_nan else 2
    wet = d > 0
    if uv:
        r = np.divide(r, d, out=np.zeros(shape), where=wet) \
            if rng.random() < .5 else r
        c = np.divide(c, d, out=np.zeros(shape), where=wet) \
            if rng.random() < .5 else c
    names = ('u', 'v') if uv else ('qx', 'qy')
    x, y = (r, c) if mdl == 'DeltaRCM' else (c, -r)
    sc.arrays[names[0]], sc.arrays[names[1]] = x.copy(), y.copy()
    for k, n in enumerate(names):
        if one in (k, 2):
            sc.arrays[n][qm] = np.nan
    if is32:
        sc.arrays = {k: a.astype(np.float32) for k, a in sc.arrays.items()}

    o = sc.options
    o['dx'] = pick(None, [1., 1, 10., 50., 0.25, 3, 1000.,
                          float(10**rng.uniform(-3, 3))])
    if mdl != ABSENT:
        o['model'] = mdl
    t = theta if theta is not None else pick(None, [ABSENT, 0., .5, 1., 2.,
                                                    3., 6., -1.,
                                                    float(rng.uniform(0, 4))])
    if t != ABSENT:
        o['theta'] = t
    g = gamma if gamma is not None else pick(None, [ABSENT, 0., .05, .5, .9,
                                                    1., .003,
                                                    float(rng.random())])
    if g != ABSENT:
        o['gamma'] = g
    if dry_opt != ABSENT:
        o['dry_depth'] = dry_opt
    k = diff if diff is not None else pick(None, [ABSENT, 0., .2, 1., 2., ABSENT, 0., .2, 1., 2.,
                                           float(10**rng.uniform(-4, 0))])
    if k != ABSENT:
        o['diff_coeff'] = k
    sd = pick(steepest, [ABSENT, False, True, ABSENT])
    if sd != ABSENT:
        o['steepest_descent'] = sd
    if cell_type is not False and (cell_type or rng.random() < .45):
        o['cell_type'] = make_cell_type(rng, shape, d, dry)
    sc.kind = (dstyle, sstyle, fstyle, mode, 'uv' if uv else 'q', str(mdl),
               'nan' if use_nan else '', 'f32' if is32 else '',
               'ct' if 'cell_type' in o else '', bool(sd is True))
    return sc


def add_tracking(rng, sc, roi=None):
    """Ask for extra variables to be tracked, and maybe give a region."""
    names = ['depth', 'stage', 'qx', 'qy', 'u', 'v']
    n = int(rng.integers(0, 5))
    chosen = [str(x) for x in rng.permutation(names)[:n]]
    roi = (rng.random() < .5) if roi is None else roi
    if roi:
        sc.options['roi_grid'] = make_roi(rng, sc.shape)
        if rng.random() < .4:
            chosen.insert(int(rng.integers(len(chosen) + 1)), 'roi_flag')
    if chosen or rng.random() < .5:
        sc.options['particle_variables'] = chosen
    return sc


def make_roi(rng, shape):
    style = int(rng.integers(4))
    roi = np.zeros(shape, int)
    if style == 0:
        roi[:] = 1
    elif style == 1:
        i, j = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
        roi[:i + 1, :j + 1] = 1
    elif style == 2:
        roi[rng.random(shape) < .5] = 1
    else:
        roi[:, shape[1]//2:] = 1
    k = int(rng.integers(6))    # zeros and ones of any type
    if k < 3:
        roi = roi.astype([bool, float, np.uint8][k])
    return roi


_example = {}


def example(rng, which=None):
    """One of the two examples that come with the code."""
    import os
    which = which or ['anuga', 'deltarcm'][int(rng.integers(2))]
    if which not in _example:
        f = os.path.join(boot.REPO, 'dorado', 'example_data',
                         'ex_%s_data.npz' % which)
        with np.load(f) as z:
            _example[which] = {k: np.array(z[k], dtype=float)
                               for k in z.files}
    z = _example[which]
    sc = Scenario()
    sc.arrays['depth'] = z['depth'].copy()
    if which == 'anuga':
        sc.arrays['stage'] = z['depth'].copy()
        sc.arrays['qx'], sc.arrays['qy'] = z['qx'].copy(), z['qy'].copy()
        sc.options.update(dx=10., theta=1.0, model='Anuga')
    else:
        sc.arrays['stage'] = z['stage'].copy()
        sc.arrays['qx'] = np.zeros(z['depth'].shape)
        sc.arrays['qy'] = np.zeros(z['depth'].shape)
        sc.options.update(dx=50., theta=1.0, model='DeltaRCM')
    sc.kind = ('example', which)
    return sc


def seed_cells(rng, sc, n, where='any', ref=None):
    """Cells to seed from: lists of rows and columns (paired)."""
    L, W = sc.shape
    if where == 'any':
        cells = [(int(rng.integers(L)), int(rng.integers(W)))
                 for _ in range(n)]
    elif where == 'border':
        cells = []
        for _ in range(n):
            i, j = int(rng.integers(L)), int(rng.integers(W))
            s = int(rng.integers(4))
            cells.append([(0, j), (L - 1, j), (i, 0), (i, W - 1)][s])
    elif where == 'inner' and min(L, W) < 3:
        return seed_cells(rng, sc, n, 'any')
    elif where == 'inner':
        i0, i1 = (1, L - 1) if L < 5 else (2, L - 2)
        j0, j1 = (1, W - 1) if W < 5 else (2, W - 2)
        cells = [(int(rng.integers(i0, i1)), int(rng.integers(j0, j1)))
                 for _ in range(n)]
    else:   # wet and not land, if there are any
        ok = np.argwhere(ref.open_cells())
        if len(ok) == 0:
            return seed_cells(rng, sc, n, 'any')
        cells = [tuple(int(v) for v in ok[int(rng.integers(len(ok)))])
                 for _ in range(n)]
    return [c[0] for c in cells], [c[1] for c in cells]


def decoy(rng, sc, often=.2):
    """Another object, about the same, built and used before: nothing of it
    may be left in those that follow. The random state is kept."""
    if rng.random() > often:
        return None
    s2 = Scenario()
    s2.arrays = {k: a.copy() for k, a in sc.arrays.items()}
    s2.options = dict(sc.options)
    k = int(rng.integers(9))
    a, o = s2.arrays, s2.options
    if k in (0, 8):
        for q in ('qx', 'qy', 'u', 'v'):
            if q in a:
                a[q] = -a[q] if k == 0 else np.ascontiguousarray(
                    a[q][::-1, ::-1])
    elif k in (1, 2):
        # (same sums, other places)
        for q in ('depth', 'stage', 'topography')[:3 if k == 1 else 1]:
            if q in a:
                a[q] = np.ascontiguousarray(a[q][::-1, ::-1])
    elif k == 3 and 'cell_type' in o:
        o['cell_type'] = np.ascontiguousarray(o['cell_type'][::-1, ::-1])
    elif k == 4:
        o['theta'], o['gamma'] = 1.5, .4
    elif k == 5:
        o['steepest_descent'] = not o.get('steepest_descent', False)
    elif k == 6:
        o['dx'], o['diff_coeff'] = 7., .9
    else:
        o['dry_depth'] = .25
    state = np.random.get_state()
    P = pt.Particles(s2.params())
    xs, ys = seed_cells(rng, sc, 4, 'any')
    P.generate_particles(4, xs, ys)
    for _ in range(int(rng.integers(0, 4))):
        P.run_iteration()
    if rng.random() < .5:
        P.run_iteration(target_time=P.walk_data['travel_times'][0][-1] + 5.,
                        max_iter=5)
    np.random.set_state(state)
    return P if rng.random() < .5 else None
