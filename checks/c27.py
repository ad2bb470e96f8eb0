"""C27: plots of positions, paths and maps."""
import os
import shutil
import numpy as np
import matplotlib
from vlib import figs, gen, hist, walk
from vlib.boot import plt, pt, routines, spatial

N = {'quick': 900, 'thorough': 30000}
CHUNK = 5
RULE = ('walk data made up and from runs, on random grids, drawn by each of '
        'the plotting functions with random options; what the figures hold '
        'is compared with the data. Distinct by function, walk and options.')
MIN = {'states': 200, 'paths': 400, 'path_points': 3000, 'snakes': 100, 'legends': 100,
       'snake_segments': 2000, 'maps': 100, 'seeds_marked': 60,
       'spatial_maps': 100}
ASSUMPTIONS = ['colors of heatmaps are judged in cells that are not NaN']


def grid_of(rng, shape):
    g = rng.normal(size=shape)
    r = int(rng.integers(3))
    return g if r else np.round(g*5)


def case(c):
    rng = c.rng
    if rng.random() < .15:
        sc, ref, wd = hist.real(rng, extra=True)
        shape = sc.shape
    else:
        shape = (int(rng.integers(3, 14)), int(rng.integers(3, 14)))
        wd = hist.synthetic(rng, shape, n=gen.size(rng, 1, 7, 130, .05),
                            extra=['depth'] if rng.random() < .2 else None,
                            minlen=int(rng.integers(1, 6)))
    g = grid_of(rng, shape)
    old, og = walk.snap(wd), g.copy()
    c.desc = dict(walk_data=wd, shape=shape)
    home = os.getcwd()
    place = os.path.join(home, 'c27-%d' % c.idx)
    os.makedirs(place)
    os.chdir(place)
    try:
        for f in (state, path, snake, nourishment, maps):
            plt.close('all')
            f(c, wd, g, shape)
            c.check(walk.same_walk(old, wd) is None and
                    np.array_equal(g, og), 'the inputs were changed by '
                    + f.__name__)
    finally:
        plt.close('all')
        os.chdir(home)
        shutil.rmtree(place, True)
    c.sample(dict(shape=shape, particles=len(wd['xinds'])))


def state(c, wd, g, shape):
    rng = c.rng
    kw, it, t = {}, -1, None
    n = len(wd['xinds'])
    r = rng.random()
    if r < .5:
        it = kw['iteration'] = int(rng.integers(
            0, max(len(x) for x in wd['xinds']) + 1))
    elif r < .8:
        t = kw['target_time'] = float(rng.uniform(0, 1.1)*max(
            q[-1] for q in wd['travel_times']))
        if rng.random() < .3:
            t = kw['target_time'] = 0.
        if rng.random() < .3:
            kw['iteration'] = 0
    if rng.random() < .4:
        kw['c'] = 'r'
    ax = routines.plot_state(g, wd, **kw)
    f = figs.Fig(ax.figure)
    c.check(f.has_image(g), 'plot_state does not show the grid')
    pts = [p for p in f.points if len(p) == n]
    c.check(len(f.points) == 1 and len(pts) == 1, 'plot_state does not mark '
            'each particle once', shown=f.points)
    for p in range(n):
        X, Y, T = [wd[k][p] for k in walk.BASE]
        if t is None:
            want = {(Y[min(it, len(X) - 1)], X[min(it, len(X) - 1)])}
        else:
            d = np.abs(np.array(T, float) - t)
            want = {(Y[k], X[k]) for k in
                    np.flatnonzero(d <= d.min()*(1 + 1e-12))}
        c.check(tuple(pts[0][p]) in want, 'plot_state marks another position',
                particle=p, options=kw, got=pts[0][p], want=want)
    col = matplotlib.colors.to_rgba(kw.get('c', 'b'))
    c.check(np.allclose(f.faces[0], col), 'color of the marks',
            got=f.faces[0], want=col)
    c.count('states')
    c.sig('state', wd['xinds'], wd['yinds'], it, t)


def path(c, wd, g, shape):
    rng = c.rng
    n = len(wd['xinds'])
    kw, who, step = {}, list(range(n)), 1
    if rng.random() < .6:
        k = int(rng.integers(1, n + 1))
        who = [int(v) for v in rng.permutation(n)[:k]]
        kw['particles_to_follow'] = list(who)
    if rng.random() < .4:
        step = kw['interval'] = int(rng.integers(1, 5))
    if rng.random() < .3:
        kw['plot_legend'] = True
    if rng.random() < .7:
        kw['output_file'] = 'some.png'
    with figs.recorded() as rec:
        routines.draw_travel_path(g, wd, **kw)
    c.check(len(rec) == 1 and os.path.exists(kw.get(
        'output_file', 'travel_paths.png')), 'no figure of travel paths')
    f = rec[0]
    c.check(f.has_image(g), 'draw_travel_path does not show the grid')
    lines = list(f.segments)
    if not lines:
        lines = [np.stack(q[:2], 1) for q in f.lines]
    want = [np.array([wd['yinds'][p][::step], wd['xinds'][p][::step]],
                     float).T for p in who]
    # (in any order of the particles; one position makes no line)
    a = sorted((w.tolist() for w in want if len(w) > 1))
    b = sorted((s.tolist() for s in lines if len(s) > 1))
    c.check(a == b, 'the lines do not follow the recorded positions',
            options=kw, got=b[:3], want=a[:3])
    legend = {k: v for k, v in f.legend.items() if k.isdigit()}
    c.check(bool(legend) == bool(kw.get('plot_legend')), 'a legend of '
            'particles', options=kw, legend=f.legend)
    if legend:
        c.check(sorted(legend) == sorted(str(p) for p in who), 'particles '
                'in the legend', got=list(legend), want=who)
        for p, w in zip(who, want):
            drawn = [s for s, q in zip(f.segments, f.seg_colors)
                     if s.shape == w.shape and np.array_equal(s, w) and
                     np.allclose(q[:3], legend[str(p)][:3], atol=1e-6)]
            c.check(not f.segments or len(w) < 2 or drawn, 'the path of a '
                    'particle has another color than in the legend',
                    particle=p)
        c.count('legends')
    c.count('paths', len(want))
    c.count('path_points', sum(len(w) for w in want))
    c.sig('path', wd['xinds'], wd['yinds'], who, step)


def pair(seg, rgba):
    return (repr(np.array(seg, float).tolist()),
            tuple(np.round(np.asarray(rgba, float), 6) + 0.))


def snake(c, wd, g, shape):
    rng = c.rng
    n = len(wd['xinds'])
    L = [len(x) for x in wd['xinds']]
    kw, step, tail = {}, 4, 12
    if rng.random() < .8:
        step = kw['interval'] = int(rng.integers(1, 6))
    if rng.random() < .7:
        tail = kw['tail_length'] = int(rng.integers(1, 15))
    num = int(rng.integers(1, 5))
    ends = [[1, .4, .2, 1], [1, .3, .1, 0]]
    for k, name in enumerate(('rgba_start', 'rgba_end')):
        if rng.random() < .3:
            ends[k] = [float(v) for v in np.round(rng.random(4), 3)]
            kw[name] = list(ends[k])
    shades = np.linspace(ends[0], ends[1], tail)
    folder = 'snake' if rng.random() < .7 else None
    if folder:
        kw['folder_name'] = folder
    with figs.recorded() as rec:
        routines.snake_plots(g, wd, num, **kw)
    want = []
    for ii in range(step, num*step, step):
        if max(L) < ii:
            break
        want.append(ii)
    fs = sorted(os.listdir(os.path.join(folder or '.', 'figs')))
    c.check(len(rec) == len(want) and fs == sorted('snakefig%d.png' % i
            for i in want), 'figures of snakes', files=fs, want=want)
    for f in rec:
        ii = int(os.path.basename(f.fname)[8:-4])
        c.check(f.has_image(g), 'snake_plots does not show the grid')
        who = [p for p in range(n) if L[p] >= ii]
        bad = None
        for end in (ii - 1, ii):
            exp, pairs, needed = [], set(), set()
            for p in who:
                line = list(zip(wd['yinds'][p], wd['xinds'][p]))
                seg = line[0:2]
                for k in range(tail):
                    a, b = end - (k + 1)*step, end - k*step
                    if a >= 0 and b < len(line):
                        seg = [line[a], line[b]]
                        needed.add(pair(seg, shades[k]))
                    exp.append(seg)
                    pairs.add(pair(seg, shades[k]))
            got = [s.tolist() for s in f.segments]
            # (in any order; repetitions do not matter to what is seen)
            u = {repr(np.array(s, float).tolist()) for s in exp
                 if len(s) > 1}
            v = {repr(s) for s in got if len(s) > 1}
            if u == v:
                shown = {pair(s, q) for s, q in zip(f.segments, f.seg_colors)
                         if len(s) > 1}
                c.check(needed <= shown and shown <= pairs, 'colors along '
                        'the tails', iteration=ii, options=kw,
                        missing=sorted(needed - shown)[:3],
                        extra=sorted(shown - pairs)[:3])
                break
            bad = bad or (sorted(v - u)[:3], sorted(u - v)[:3])
        else:
            c.fail('the tails are not the recent recorded positions',
                   iteration=ii, options=kw, extra=bad[0], missing=bad[1])
        c.check(True, '')
        c.count('snakes')
        c.count('snake_segments', len(got))
    c.sig('snake', wd['xinds'], wd['yinds'], step, tail, num)


def nourishment(c, wd, g, shape):
    rng = c.rng
    for fn, show in ((pt.nourishment_area, routines.show_nourishment_area),
                     (pt.nourishment_time, routines.show_nourishment_time)):
        sigma = float(rng.choice([0., .7, 1.]))
        a = fn(wd, shape, sigma=sigma, clip=100)
        if not np.isfinite(a).any():
            continue
        if np.nanmax(a) <= np.nanmin(a):
            continue
        was = a.copy()
        plt.close('all')
        kw = {}
        cmap = 'Reds' if show is routines.show_nourishment_area else 'magma'
        if rng.random() < .5:
            cmap = kw['cmap'] = ['viridis', 'Blues'][int(rng.integers(2))]
        if rng.random() < .6:
            kw['grid'] = g
        seed = rng.random() < .7
        if seed:
            kw['walk_data'] = wd
            if rng.random() < .3:
                seed = kw['show_seed'] = False
        if show is routines.show_nourishment_area and rng.random() < .5:
            kw['sigma'] = sigma
        lo = .3
        if show is routines.show_nourishment_area:
            lo = 0
        if rng.random() < .3:
            lo = kw['min_alpha'] = .5
        if rng.random() < .5:
            fig, ax0 = plt.subplots()
        else:
            ax0 = None
        ax = show(a, **kw)
        c.check(np.array_equal(a, was, equal_nan=True), 'the map given was '
                'changed')
        c.check(ax0 is None or ax is ax0, 'not drawn in the present axes')
        f = figs.Fig(ax.figure)
        if 'grid' in kw:
            c.check(f.has_image(g), 'a nourishment map without its grid')
        L, W = shape
        imgs = [np.asarray(i) for i, e, o in f.images
                if np.shape(i) == (L, W, 4) and o == 'upper' and
                np.allclose(e, [-.5, W - .5, L - .5, -.5])]
        c.check(len(imgs) == 1, 'no heatmap over the grid',
                images=[(np.shape(i), e, o) for i, e, o in f.images])
        img = imgs[0]
        m = ~np.isnan(a)
        top = 1. if show is routines.show_nourishment_area else np.nanmax(a)
        if top <= np.nanmin(a):
            continue
        v = (a[m] - np.nanmin(a))/(top - np.nanmin(a))
        cm = matplotlib.colormaps[cmap]
        # (colors within one entry of the table)
        x1, x2 = cm(np.clip(v - 1e-9, 0, 1)), cm(np.clip(v + 1e-9, 0, 1))
        ok = (np.abs(img[m][:, :3] - x1[:, :3]) < 1e-6).all(1) | (
            np.abs(img[m][:, :3] - x2[:, :3]) < 1e-6).all(1)
        c.check(ok.all(), 'colors of a nourishment map', function=show
                .__name__, bad=int((~ok).sum()), values=a[m][~ok][:3])
        al = img[m][:, 3]
        o = np.argsort(a[m])
        c.check(np.all(np.diff(al[o]) >= -1e-9) and al.min() >= lo - 1e-9
                and al.max() <= 1 + 1e-9, 'opacity of a nourishment map',
                function=show.__name__)
        if seed:
            c.check(f.has_points([wd['yinds'][0][0]], [wd['xinds'][0][0]])
                    is not None, 'the first seed location is not marked',
                    shown=f.points, want=(wd['yinds'][0][0],
                                          wd['xinds'][0][0]))
            c.count('seeds_marked')
        else:
            c.check(not f.points, 'a seed location is marked though not '
                    'asked for')
        c.count('maps')
        c.sig(show.__name__, a, cmap, lo)


def maps(c, wd, g, shape):
    rng = c.rng
    if c.idx % 3:
        return
    s = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    E = [rng.uniform(0, 20, s) for _ in range(3)]
    for e in E:
        e[rng.random(s) < .2] = np.nan
    was = [e.copy() for e in E]
    plt.close('all')
    top, k = float(rng.choice([10, 15, 30, 7.5, .75])), int(
        rng.integers(3, 8))
    out = spatial.plot_spatial(E, g, top, k, plt.cm.viridis, 'Time [d]')
    f = out[0]
    c.check(all(np.array_equal(a, b, equal_nan=True)
                for a, b in zip(E, was)), 'the maps given were changed')
    seen = []
    for ax in f.axes:
        ims = [i for i in ax.images]
        if len(ims) == 2:
            seen.append((ax.get_position().x0, ims))
    c.check(len(seen) == 3, 'three panels', n=len(seen))
    seen.sort(key=lambda q: q[0])
    c.check([ax.get_position().x0 for ax in out[1]] == [q[0] for q in seen]
            and all(ax.figure is f for ax in out[1]), 'the axes returned are '
            'not those of the maps, in order', n=len(out[1]))
    for (_, ims), e in zip(seen, was):
        arr = [np.ma.filled(np.ma.asarray(i.get_array(), dtype=float),
                            np.nan) for i in ims]
        c.check(arr[0].shape == g.shape and np.array_equal(arr[0], g),
                'the background is not the elevation')
        c.check(arr[1].shape == e.shape and np.array_equal(
            arr[1], e, equal_nan=True), 'a panel does not show its map')
        x = [[float(v) for v in i.get_extent()] + [i.origin] for i in ims]
        c.check(x[0] == x[1] and x[0][2] > x[0][3] and x[0][0] < x[0][1]
                and x[0][4] == 'upper', 'a map does not lie on the '
                'elevation', extents=x)
        nm = ims[1].norm
        c.check(nm.vmin == 0 and nm.vmax == top, 'range of colors',
                vmin=nm.vmin, vmax=nm.vmax, want=top)
        if hasattr(nm, 'boundaries'):
            c.check(np.allclose(nm.boundaries, np.linspace(0, top, k)),
                    'levels of color', got=nm.boundaries, top=top, n=k)
        c.count('spatial_maps')
    plt.close(f)
    c.sig('spatial', was[0])
