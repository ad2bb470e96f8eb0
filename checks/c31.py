"""C31: options left out are the documented defaults."""
import os
import shutil
import numpy as np
from vlib import figs, gen, hist, walk
from vlib.boot import plt, pt, routines, spatial
from vlib.ref import Ref
from checks.c11 import drive, eq, grids, make_ops

N = {'quick': 15000, 'thorough': 200000}
RULE = ('random domains; an object for which options (and method arguments) '
        'were left out, and one for which their documented defaults were '
        'given, do the same from the same random state; likewise for the '
        'analysis functions on random walk data, and (every 60th case) '
        'plots. Non-trivial: particles moved; distinct by options and walk.')
MIN = {'walks': 4000, 'analysis': 8000, 'plots': 60, 'none_given': 300,
       'geometry': 800, 'cell_types': 800, 'other_values': 3000,
       'limit_default': 3}

SQ2, SQ05 = np.sqrt(2), np.sqrt(.5)
GEOMETRY = {
    'distances': np.array([[SQ2, 1, SQ2], [1, 1, 1], [SQ2, 1, SQ2]]),
    'ivec': np.array([[-SQ05, 0, SQ05], [-1, 0, 1], [-SQ05, 0, SQ05]]),
    'jvec': np.array([[-SQ05, -1, -SQ05], [0, 0, 0], [SQ05, 1, SQ05]]),
    'iwalk': np.array([[-1, 0, 1]]*3),
    'jwalk': np.array([[-1]*3, [0]*3, [1]*3]),
    'angles': np.array([[3*np.pi/4, np.pi/2, np.pi/4], [np.pi, 0, 0],
                        [5*np.pi/4, 3*np.pi/2, 7*np.pi/4]])}
OPTIONS = ('theta', 'gamma', 'diff_coeff', 'dry_depth', 'steepest_descent',
           'cell_type', 'particle_variables', 'model', 'verbose',
           'geometry')


def default(sc, k):
    """The documented default of an option, for this domain."""
    o = sc.options
    if k == 'theta':
        return 1.0
    if k == 'gamma':
        return .05
    if k == 'dry_depth':
        return .1
    if k == 'diff_coeff':
        return 0. if o.get('steepest_descent') is True else .2
    if k == 'steepest_descent':
        return False
    if k == 'particle_variables':
        return []
    if k == 'model':
        return []
    if k == 'cell_type':
        dry = o.get('dry_depth', .1)
        d = Ref(sc).depth
        ct = np.zeros(d.shape, int)
        ct[d < dry] = 2
        ct[0], ct[-1], ct[:, 0], ct[:, -1] = -1, -1, -1, -1
        return ct


def build(sc, given):
    """An object with these options given, all as they should be."""
    p = sc.params()
    for k, v in given.items():
        if k == 'geometry':
            for q, a in GEOMETRY.items():
                setattr(p, q, a.copy(order=v))
        else:
            setattr(p, k, v)
    return pt.Particles(p)


def case(c):
    rng = c.rng
    if c.idx % 60 == 59:
        return plots(c)
    if c.idx % 2:
        return analysis(c)
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4, f32=False))
    left = [k for k in OPTIONS if rng.random() < .5]
    for k in left:
        sc.options.pop(k, None)
    ref = Ref(sc)
    c.desc = dict(sc.describe(), left_out=left)
    ops = make_ops(rng, sc, ref, 'wet' if rng.random() < .8 else 'any')
    given = {}
    order = [left[i] for i in rng.permutation(len(left))]
    for k in order[:max(1, int(rng.integers(len(left) + 1)))] if left else []:
        if k == 'verbose':
            continue
        if k == 'geometry':
            given[k] = 'CF'[int(rng.integers(2))]
            c.count('geometry')
        else:
            given[k] = default(sc, k)
            if k == 'cell_type':
                c.count('cell_types')
    # None is what an option not set is, for those that may be
    for k in ('model', 'particle_variables', 'roi_grid', 'topography'):
        if k not in given and k not in sc.options and k not in sc.arrays \
                and rng.random() < .2:
            given[k] = None
            c.count('none_given')
    A, B = build(sc, {}), build(sc, given)
    for k in grids(A):
        if not hasattr(B, k):
            continue
        c.check(eq(getattr(A, k), getattr(B, k)), 'a grid differs as '
                'defaults were given', name=k, given=list(given))
    np.random.seed(int(rng.integers(2**31)))
    s = np.random.get_state()
    sa = drive(A, ops, s)
    # the arguments of the methods, too
    np.random.set_state(s)
    for o in ops:
        if o[0] == 'gen':
            kw = {}
            if o[4] == 'exact' or rng.random() < .5:
                kw['method'] = o[4]
            if o[5] or rng.random() < .5:
                kw['seed_time'] = o[5]
            if rng.random() < .3:
                kw['previous_walk_data'] = None
            B.generate_particles(o[1], o[2], o[3], **kw)
        elif o[0] == 'step':
            if rng.random() < .5:
                B.run_iteration()
            else:
                B.run_iteration(target_time=None, max_iter=1e4)
        else:
            B.run_iteration(target_time=o[1], max_iter=o[2])
    sb = np.random.get_state()
    bad = walk.same_walk(A.walk_data, B.walk_data)
    c.check(bad is None, 'giving defaults changes the walk: %s' % bad,
            given=list(given), ops=ops)
    c.check(set(A.walk_data) == set(B.walk_data), 'giving defaults changes '
            'the variables tracked', given=list(given))
    c.check(sa[2] == sb[2] and np.array_equal(sa[1], sb[1]), 'giving '
            'defaults changes the random numbers drawn', given=list(given))
    c.count('walks')
    other(c, sc, s, ops, A)
    if c.idx % 1500 == 0:
        limit(c)
    if any(len(x) > 1 for x in A.walk_data['xinds']) and given:
        c.sig(sorted(given), A.walk_data['xinds'], A.walk_data['yinds'])
        c.sample(dict(given=sorted(given), ops=ops, kind=sc.kind))


def other(c, sc, s, ops, A):
    """Options in another form, or geometry in other units."""
    rng = c.rng
    sc2 = gen.Scenario()
    sc2.arrays, sc2.options, sc2.kind = dict(sc.arrays), dict(sc.options), \
        sc.kind
    for k in ('theta', 'gamma', 'diff_coeff', 'dx'):
        v = sc2.options.get(k)
        if v is None or rng.random() < .5:
            continue
        form = int(rng.integers(3))
        if form == 0:
            sc2.options[k] = np.float64(v)
        elif form == 1 and v == int(v):
            sc2.options[k] = int(v)
        elif form == 2:
            sc2.options[k] = float(v)
    if 'cell_type' in sc2.options and rng.random() < .5:
        sc2.options['cell_type'] = sc2.options['cell_type'].astype(
            [float, np.int8, np.int64][int(rng.integers(3))])
    if rng.random() < .5:       # the same grids, stored in another way
        for k, a in sc2.arrays.items():
            if rng.random() < .6:
                sc2.arrays[k] = np.asfortranarray(a)
    B = pt.Particles(sc2.params())
    drive(B, ops, s)
    bad = walk.same_walk(A.walk_data, B.walk_data)
    c.check(bad is None, 'the form in which options are given changes the '
            'walk: %s' % bad, options={k: repr(v)[:80] for k, v in
                                       sc2.options.items()})
    c.count('other_values')


def limit(c):
    """Without a limit given, target-time runs end after 10000 steps."""
    n = 6
    p = pt.modelParams()
    p.dx, p.model = 1., 'DeltaRCM'
    p.depth, p.stage = np.ones((n, n)), np.ones((n, n))
    p.qx, p.qy = np.zeros((n, n)), np.zeros((n, n))
    p.cell_type = np.zeros((n, n), int)
    p.gamma, p.steepest_descent = 0., True
    # (round and round in the middle)
    p.qx[2, 2], p.qy[3, 2], p.qx[3, 3], p.qy[2, 3] = 1., 1., -1., -1.
    P = pt.Particles(p)
    P.generate_particles(1, [2], [2])
    wd = P.run_iteration(target_time=1e9)
    c.check(len(wd['xinds'][0]) == 10001, 'the default limit of iterations '
            'is not 10000', steps=len(wd['xinds'][0]) - 1)
    c.count('limit_default')


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(
            np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    return walk.same(a, b)


def part(rng, kw):
    return {k: v for k, v in kw.items() if rng.random() < .6}


def analysis(c):
    rng = c.rng
    shape = (int(rng.integers(3, 12)), int(rng.integers(3, 12)))
    wd = hist.synthetic(rng, shape, extra=['depth'] if rng.random() < .3
                        else None)
    roi = gen.make_roi(rng, shape)
    c.desc = dict(walk_data=wd, shape=shape)
    xy = rng.uniform(0, 9, size=(int(rng.integers(5, 40)), 2))
    data = rng.normal(size=len(xy))
    chunks = [[float(v) for v in rng.exponential(size=int(rng.integers(
        0, 12)))] for _ in range(9)]
    elev = rng.normal(size=(9, 9))
    cs = float(rng.uniform(.4, 2))
    todo = [
        ('get_state', lambda **kw: routines.get_state(wd, **kw),
         dict(iteration=-1, verbose=None)),
        ('get_time_state', lambda **kw: routines.get_time_state(
            wd, 3.5, **kw), dict(verbose=None)),
        ('nourishment_area', lambda **kw: pt.nourishment_area(
            wd, shape, **kw), dict(sigma=.7, clip=99.5)),
        ('nourishment_time', lambda **kw: pt.nourishment_time(
            wd, shape, **kw), dict(sigma=.7, clip=99.5)),
        ('exposure_time', lambda **kw: pt.exposure_time(wd, roi, **kw),
         dict(verbose=None)),
        ('unstruct2grid', lambda **kw: pt.unstruct2grid(
            [tuple(p) for p in xy], data, cs, **kw)[1],
         dict(k_nearest_neighbors=3, boundary=None, crop=True)),
        ('compute_thresholds', lambda **kw: spatial.compute_thresholds(
            chunks, elev, 1., 3, **kw), dict(window_size=5, threshold=3))]
    for i in rng.permutation(len(todo))[:3]:
        name, f, kw = todo[i]
        with np.errstate(all='ignore'):
            a = f()
            g = part(rng, kw)
            c.check(same(a, f(**g)), 'giving defaults changes the result of '
                    + name, given=g)
            if rng.random() < .3:
                c.check(same(a, f(**kw)), 'giving defaults changes the '
                        'result of ' + name, given=kw)
        c.count('analysis')
    c.sig('analysis', wd['xinds'], shape)


def plots(c):
    rng = c.rng
    shape = (int(rng.integers(4, 10)), int(rng.integers(4, 10)))
    wd = hist.synthetic(rng, shape, n=int(rng.integers(2, 6)), maxlen=60,
                        minlen=20)
    g = rng.normal(size=shape)
    roi = np.zeros(shape, int)
    roi[:, :shape[1]//2] = 1
    et = pt.exposure_time(wd, roi)
    area = pt.nourishment_area(wd, shape)
    time = pt.nourishment_time(wd, shape)
    c.desc = dict(walk_data=wd, shape=shape)
    place = os.path.join(os.getcwd(), 'c31-%d' % c.idx)
    os.makedirs(place)
    todo = [
        ('plot_state', lambda **kw: routines.plot_state(g, wd, **kw),
         dict(iteration=-1, target_time=None, c='b')),
        ('draw_travel_path', lambda **kw: routines.draw_travel_path(
            g, wd, output_file=os.path.join(place, 'a.png'), **kw),
         dict(particles_to_follow='all', interval=1, plot_legend=False)),
        ('snake_plots', lambda **kw: routines.snake_plots(
            g, wd, 4, folder_name=place, **kw),
         dict(interval=4, tail_length=12, rgba_start=[1, .4, .2, 1],
              rgba_end=[1, .3, .1, 0], verbose=None)),
        ('plot_exposure_time', lambda **kw: routines.plot_exposure_time(
            wd, list(et), folder_name=place, **kw),
         dict(timedelta=1, nbins=100, save_output=True, verbose=None,
              uniform_timesteps=False, show_thresholds=False)),
        ('plot_exposure_time_thresholds',
         lambda **kw: routines.plot_exposure_time_thresholds(
             wd, list(et), folder_name=place, **kw),
         dict(timedelta=1, nbins=100, save_output=True, verbose=None,
              uniform_timesteps=False)),
        ('show_nourishment_area',
         lambda **kw: routines.show_nourishment_area(area, walk_data=wd,
                                                     **kw),
         dict(grid=None, cmap='Reds', sigma=.7, min_alpha=0,
              show_seed=True, seed_color='dodgerblue')),
        ('show_nourishment_time',
         lambda **kw: routines.show_nourishment_time(time, walk_data=wd,
                                                     **kw),
         dict(grid=None, cmap='magma', min_alpha=.3, show_seed=True,
              seed_color='dodgerblue'))]
    for i in rng.permutation(len(todo))[:3]:
        name, f, kw = todo[i]
        res = []
        for args in ({}, part(rng, kw)):
            plt.close('all')
            with figs.recorded() as rec, np.errstate(all='ignore'):
                f(**args)
                shots = list(rec) or [figs.Fig(plt.figure(k))
                                      for k in plt.get_fignums()]
            res.append((args, shots))
        plt.close('all')
        (_, a), (g2, b) = res
        c.check(len(a) == len(b), 'giving defaults changes the number of '
                'figures of ' + name, given=g2)
        for x, y in zip(a, b):
            ok = len(x.images) == len(y.images) and all(
                p[0].shape == q[0].shape and np.array_equal(
                    np.asarray(p[0], float), np.asarray(q[0], float),
                    equal_nan=True)
                for p, q in zip(x.images, y.images)) and same(
                    x.points, y.points) and same(
                    x.segments, y.segments) and same(
                    [v[:2] for v in x.lines], [v[:2] for v in y.lines])
            c.check(ok and x.titles == y.titles and x.limits == y.limits,
                    'giving defaults changes the figure of ' + name,
                    given=g2)
        c.count('plots')
    shutil.rmtree(place, True)
    c.sig('plots', wd['xinds'])
