"""C23: steady routines."""
import json
import os
import shutil
import numpy as np
from vlib import figs, gen, walk
from vlib.boot import pt, plt, routines
from vlib.ref import Ref

N = {'quick': 300, 'thorough': 12000}
CHUNK = 5
RULE = ('random domains, particles (with and without a past), numbers of '
        'iterations and folders (given, existing, nested, the present one); '
        'walks are compared with those of plain iterations from the same '
        'random state, files are read back, and figures are recorded as '
        'they are saved (every 25th case draws them). Distinct by walk.')
MIN = {'runs': 200, 'figures': 300, 'read_back': 100, 'nothing_written': 40,
       'moves': 700, 'rerun': 60, 'drawn': 3, 'timed_figures': 100}
ASSUMPTIONS = ['at least one iteration is asked for']


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4, hi=12))
    if 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    n = gen.size(rng, 1, 7, 150, .06)
    xs, ys = gen.seed_cells(rng, sc, n, 'wet', ref)
    past = int(rng.integers(0, 4)) if rng.random() < .4 else 0
    its = gen.size(rng, 1, 6, 30, .1)
    c.desc = dict(sc.describe(), xs=xs, ys=ys, past=past, iterations=its)

    def fresh(s):
        P = pt.Particles(sc.params())
        np.random.seed(s)
        P.generate_particles(n, xs, ys)
        for _ in range(past):
            P.run_iteration()
        return P

    s = int(rng.integers(2**31))
    P = fresh(s)
    steps = [walk.snap(P.walk_data)]
    for _ in range(its):
        P.run_iteration()
        steps.append(walk.snap(P.walk_data))
    want = steps[-1]
    home = os.getcwd()
    place = os.path.join(home, 'c23-%d' % c.idx)
    os.makedirs(place)
    os.chdir(place)
    try:
        draw = c.idx % 25 == 0
        for name in ('steady', 'time', 'off'):
            kind = int(rng.integers(4))
            folder = ['new' + name, os.path.join(place, 'a', name), '.',
                      'old' + name][kind]
            kw = dict(folder_name=folder)
            if kind == 2:
                if rng.random() < .5:
                    kw = {}
                for q in ('figs', 'data'):
                    shutil.rmtree(os.path.join(place, q), True)
            if kind == 3:
                os.makedirs(os.path.join(folder, 'figs'))
            if kind != 2 and rng.random() < .4:     # as of an earlier run
                os.makedirs(os.path.join(folder, 'data'), exist_ok=True)
                with open(os.path.join(folder, 'data', 'data.txt'),
                          'w') as f:
                    f.write(json.dumps(steps[0], default=float)
                            * int(rng.integers(1, 40)))
                c.count('rerun')
            P = fresh(s)
            before = figs.tree(place)
            with figs.recorded(draw) as rec:
                if name == 'time':
                    got = routines.time_plots(P, its, **kw)
                elif name == 'off':
                    got = routines.steady_plots(P, its, save_output=False,
                                                **kw)
                else:
                    if rng.random() < .5:
                        kw['save_output'] = True
                    got = routines.steady_plots(P, its, **kw)
            bad = walk.same_walk(want, got) or walk.same_walk(got, want)
            c.check(bad is None, '%s_plots does not do the same as %d '
                    'iterations: %s' % (name, its, bad))
            bad = walk.same_walk(want, P.walk_data)
            c.check(bad is None, '%s_plots left the particles elsewhere: %s'
                    % (name, bad))
            c.count('runs')
            c.count('moves', sum(len(x) - 1 for x in got['xinds']))
            if name == 'off':
                c.check(figs.tree(place) == before and not rec,
                        'something was written with save_output=False',
                        new=sorted(set(figs.tree(place)) - set(before)))
                c.count('nothing_written')
                continue
            with open(os.path.join(folder, 'data', 'data.txt')) as f:
                back = json.load(f)
            bad = walk.same_walk(got, back) or walk.same_walk(back, got)
            c.check(bad is None, 'the data saved differ from those '
                    'returned: %s' % bad)
            c.count('read_back')
            fs = sorted(os.listdir(os.path.join(folder, 'figs')))
            c.check(fs == sorted('output%d.png' % i for i in range(its)),
                    'not one figure per iteration', files=fs, iterations=its)
            c.check(len(rec) == its, 'figures saved', n=len(rec))
            for f in rec:
                b = os.path.basename(f.fname)
                i = int(b[6:-4])
                judge(c, f, steps[i + 1], P.depth, name == 'time', i)
            if draw:
                with open(os.path.join(folder, 'figs', 'output0.png'),
                          'rb') as f:
                    c.check(f.read(4) == b'\x89PNG', 'not a png file')
                c.count('drawn')
        if any(len(x) > 1 for x in want['xinds']):
            c.sig(want['xinds'], want['yinds'], its)
            c.sample(dict(iterations=its, particles=n, past=past,
                          kind=sc.kind))
    finally:
        os.chdir(home)
        shutil.rmtree(place, True)


def judge(c, f, wd, depth, timed, i):
    c.check(f.has_image(depth), 'the figure does not show the depth',
            figure=i)
    x0, y0 = [x[0] for x in wd['xinds']], [y[0] for y in wd['yinds']]
    x1, y1 = [x[-1] for x in wd['xinds']], [y[-1] for y in wd['yinds']]
    c.check(f.has_points(y0, x0) is not None, 'the figure does not show the '
            'starts', figure=i, shown=f.points, want=(y0, x0))
    k = f.has_points(y1, x1)
    c.check(k is not None, 'the figure does not show the present positions',
            figure=i, shown=f.points, want=(y1, x1))
    if timed:
        t = np.array([q[-1] for q in wd['travel_times']], float)
        ok = any(a is not None and np.array_equal(
            p, np.array([y1, x1], float).T) and np.array_equal(a, t)
            for p, a in zip(f.points, f.colors))
        c.check(ok, 'the positions are not colored by travel time',
                figure=i, times=t, shown=f.colors)
        c.count('timed_figures')
    c.count('figures')
