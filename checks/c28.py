"""C28: analysis leaves its inputs as they are."""
import copy
import os
import shutil
import numpy as np
from vlib import figs, gen, hist, walk
from vlib.boot import plt, pt, routines, spatial
from vlib.ref import Ref
from checks.c11 import grids, eq

N = {'quick': 800, 'thorough': 20000}
CHUNK = 5
RULE = ('runs with random sequences of queries, statistics, conversions and '
        'plots between the steps; all that was given is compared with deep '
        'copies, results with those of the same call repeated and in '
        'another order, and the run with one without any of them. '
        'Non-trivial: runs in which particles moved; distinct by walk and '
        'sequence.')
MIN = {'calls': 3000, 'inputs_compared': 6000, 'repeated': 1200,
       'resumed_runs': 130, 'kinds': 1, 'paths_drawn': 80}
ASSUMPTIONS = ['the random state is set again before a run goes on (colors '
               'of paths are drawn at random)']


def frozen(x):
    """A deep copy to compare with."""
    return copy.deepcopy(x)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc'
            else np.array_equal(a, b))
    return walk.same(a, b)


def calls(rng, sc, P, wd):
    """name -> (function, inputs by name), drawn at random."""
    shape = sc.shape
    roi = gen.make_roi(rng, shape)
    it = int(rng.integers(0, 6))
    grid = np.array(P.depth)
    et = [float(v) for v in rng.uniform(0, 5, len(wd['xinds']))]
    arr = bool(rng.random() < .5)     # (arrays in place of lists)
    save = bool(it % 2) and not arr
    unit = [1, 60, 3600., 7][int(rng.integers(4))]
    uni = bool(rng.random() < .5)
    near = int(rng.integers(1, 4))
    coords = [(float(x), float(y)) for x, y in rng.uniform(0, 9, (20, 2))]
    inds = [[float(v) for v in q] for q in rng.uniform(0, 9, (8, 2))]
    quant = [float(v) for v in rng.normal(size=20)]
    quant2 = rng.normal(size=20)
    bnd = [(1., 1.), (8., 1.5), (7.5, 8.), (1., 7.)]
    Q = rng.uniform(-1, 5, int(rng.integers(2, 9)))
    cells = (np.array(P.cell_type) == 0).astype(int)
    if rng.random() < .5:       # (kinds of cells other than the region)
        cells = np.where((cells == 0) | (rng.random(shape) < .3),
                         rng.choice([-1, 0, 2], size=shape), cells)
    elev = rng.normal(size=shape)
    chunks = [[float(v) for v in rng.exponential(size=12)]
              for _ in range(3)] + [[1., np.nan, 2.5, 0., 3., 4., 7.5],
                                    np.nan, [0., 0., 1.]]
    m6 = rng.normal(size=(6, 5))
    m6[rng.random((6, 5)) < .2] = np.nan
    E = [rng.uniform(0, 9, (2, 3)) for _ in range(3)]
    start, end = [1, .4, .2, 1], [1, .3, .1, 0]
    if rng.random() < .5:
        start, end = [[float(v) for v in q] for q in rng.random((2, 4))]
    legend = bool(rng.random() < .5)
    every = int(rng.integers(1, 4))
    who = [int(v) for v in rng.permutation(len(wd['xinds']))]
    t = float(rng.uniform(0, 100))
    vf = pt.nourishment_area(copy.deepcopy(wd), shape)*float(
        rng.choice([1., .5, 3.]))
    if arr:
        et, coords, quant = np.array(et), np.array(coords), np.array(quant)
        inds = np.array(inds)
    out = {
        'get_state': (lambda wd: routines.get_state(wd, it), dict(wd=wd)),
        'get_state_last': (lambda wd: routines.get_state(wd), dict(wd=wd)),
        'get_time_state': (lambda wd: routines.get_time_state(wd, t),
                           dict(wd=wd)),
        'exposure_time': (lambda wd, roi: pt.exposure_time(wd, roi),
                          dict(wd=wd, roi=roi)),
        'nourishment_area': (lambda wd: pt.nourishment_area(wd, shape),
                             dict(wd=wd)),
        'nourishment_time': (lambda wd: pt.nourishment_time(wd, shape),
                             dict(wd=wd)),
        'coord2ind': (lambda c_: pt.coord2ind(c_, (0, 0), shape, 1.),
                      dict(c_=inds)),
        'unstruct2grid': (lambda xy, q, b, q2: [pt.unstruct2grid(
            xy, q, 1., near, boundary=b)[1], pt.unstruct2grid(
                xy, q, 1., near)[0](q2)], dict(xy=coords, q=quant, b=bnd,
                                         q2=quant2)),
        'flux_proportional_seeding': (
            lambda Q: pt.flux_proportional_seeding(Q, 17, len(Q)),
            dict(Q=Q)),
        'systemwide': (lambda wd, elev, cells: spatial.systemwide(
            wd, elev, cells, 2), dict(wd=wd, elev=elev, cells=cells)),
        'localized': (lambda wd, elev, cells: spatial.localized(
            wd, elev, cells, 2), dict(wd=wd, elev=elev, cells=cells)),
        'compute_thresholds': (lambda ch, elev: spatial.compute_thresholds(
            ch, elev, 60., 2), dict(ch=chunks, elev=np.zeros((4, 6)))),
        'mad_filter': (lambda a: spatial.median_absolute_deviation_filter(
            a, 3, 2), dict(a=m6)),
        'plot_state': (lambda g, wd: routines.plot_state(g, wd) and None,
                       dict(g=grid, wd=wd)),
        'draw_travel_path': (lambda g, wd, who: routines.draw_travel_path(
            g, wd, who, output_file='p.png', plot_legend=legend,
            interval=every), dict(g=grid, wd=wd, who=who)),
        'snake_plots': (lambda g, wd, a, b: routines.snake_plots(
            g, wd, 2, interval=1, tail_length=3, rgba_start=a, rgba_end=b),
            dict(g=grid, wd=wd, a=start, b=end)),
        'plot_exposure_time': (lambda wd, et: routines.plot_exposure_time(
            wd, et, save_output=save, timedelta=unit, uniform_timesteps=uni,
            show_thresholds=not uni), dict(wd=wd, et=et)),
        'plot_exposure_time_thresholds': (
            lambda wd, et: routines.plot_exposure_time_thresholds(
                wd, et, save_output=save, timedelta=unit,
                uniform_timesteps=uni), dict(wd=wd, et=et)),
        'plot_spatial': (lambda E, g: spatial.plot_spatial(
            E, g, 9., 4, plt.cm.viridis, 't') and None, dict(E=E, g=grid)),
        'show_nourishment_area': (
            lambda v, g, wd: routines.show_nourishment_area(v, g, wd)
            and None, dict(v=vf, g=grid, wd=wd)),
        'show_nourishment_time': (
            lambda v, g, wd: routines.show_nourishment_time(v, g, wd)
            and None, dict(v=vf, g=grid, wd=wd)),
    }
    if not np.isfinite(vf).any():
        out.pop('show_nourishment_area')
        out.pop('show_nourishment_time')
    if min(q[-1] for q in wd['travel_times']) <= 0:
        out.pop('plot_exposure_time')
        out.pop('plot_exposure_time_thresholds')
    return out


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4, hi=12,
                                            depth=['wet', 'bowl', 'islands'][
                                                int(rng.integers(3))]))
    if 'cell_type' in sc.options or rng.random() < .5:
        sc.options['cell_type'] = np.zeros(sc.shape, int)
    ref = Ref(sc)
    n = int(rng.integers(1, 7))
    xs, ys = gen.seed_cells(rng, sc, n, 'wet', ref)
    c.desc = dict(sc.describe(), xs=xs, ys=ys)
    legs = [int(v) for v in rng.integers(1, 8, size=3)]
    seeds = [int(v) for v in rng.integers(2**31, size=3)]
    T = float(rng.uniform(1, 20))*ref.dx/(np.median(ref.speed) + 1e-3)

    def leg(P, k):
        np.random.seed(seeds[k])
        for _ in range(legs[k]):
            P.run_iteration()
        if k == 1:
            P.run_iteration(target_time=T, max_iter=15)

    twin = pt.Particles(sc.params())
    np.random.seed(1)
    twin.generate_particles(n, xs, ys)
    for k in range(3):
        leg(twin, k)

    home = os.getcwd()
    place = os.path.join(home, 'c28-%d' % c.idx)
    os.makedirs(place)
    os.chdir(place)
    seq = []
    try:
        P = pt.Particles(sc.params())
        np.random.seed(1)
        P.generate_particles(n, xs, ys)
        fields = {k: np.array(getattr(P, k)) for k in grids(P)}
        for k in range(3):
            leg(P, k)
            if k == 2:
                break
            table = calls(rng, sc, P, P.walk_data)
            names = list(table)
            picks = [names[int(v)] for v in rng.integers(
                len(names), size=int(rng.integers(3, 9)))]
            results = {}
            picks += picks[:4]      # again, after others
            with figs.recorded():
                for name in picks:
                    fn, given = table[name]
                    keep = frozen(given)
                    ran = np.random.get_state()
                    res = fn(**given)
                    for q in given:
                        c.check(equal(given[q], keep[q]), '%s changed its '
                                'input %s' % (name, q), leg=k)
                        c.count('inputs_compared')
                    if name != 'draw_travel_path':
                        now = np.random.get_state()
                        c.check(ran[0] == now[0] and ran[2:] == now[2:] and
                                np.array_equal(ran[1], now[1]), '%s changed '
                                'the random state' % name)
                    else:       # draws from it, but does not set it
                        ends = []
                        for v in (7, 8):
                            np.random.seed(v)
                            fn(**given)
                            ends.append(np.random.get_state()[1])
                        np.random.set_state(ran)
                        c.check(not np.array_equal(*ends), '%s set the '
                                'random state' % name)
                        c.count('paths_drawn')
                    if name in results:
                        c.check(equal(results[name], res), '%s gave another '
                                'result when repeated' % name)
                        c.count('repeated')
                    results[name] = frozen(res)
                    plt.close('all')
                    c.count('calls')
                    seq.append(name)
            # coordinates are added, all else stays
            if rng.random() < .3:
                given = frozen(P.walk_data)
                keep = frozen(given)
                pt.ind2coord(given, (0., 0.), sc.shape, 2.)
                given.pop('xcoord', None)
                given.pop('ycoord', None)
                c.check(equal(given, keep), 'ind2coord changed more than '
                        'its two variables')
                c.count('inputs_compared')
            for q in fields:
                c.check(eq(fields[q], getattr(P, q)), 'a grid of the '
                        'particles was changed', name=q, calls=seq)
        bad = walk.same_walk(twin.walk_data, P.walk_data)
        c.check(bad is None, 'the run went on differently after analysis: '
                '%s' % bad, calls=seq)
        c.count('resumed_runs')
        c.counters['kinds'] = 1
        if any(len(x) > 1 for x in P.walk_data['xinds']):
            c.sig(P.walk_data['xinds'], seq)
            c.sample(dict(sequence=seq, kind=sc.kind))
    finally:
        os.chdir(home)
        shutil.rmtree(place, True)
