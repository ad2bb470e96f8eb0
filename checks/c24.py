"""C24: the unsteady routine."""
import json
import os
import shutil
import numpy as np
from vlib import figs, gen, hist, walk
from vlib.boot import pt, routines
from vlib.ref import Ref

N = {'quick': 500, 'thorough': 14000}
CHUNK = 4
RULE = ('random series of flow fields, written as csv, npy and npz (with '
        'other files among them), random timesteps and numbers of steps '
        '(also more than there are files); the result is compared with the '
        'steps done one by one, and between formats, from the same random '
        'state; files are read back and figures recorded. Distinct by walk.')
MIN = {'runs': 150, 'timesteps': 400, 'figures': 400, 'moves': 600, 'rerun': 20, 'long': 6,
       'clamped': 20, 'csv': 40, 'npy': 40, 'npz': 40}
ASSUMPTIONS = ['names of files sort in order; timesteps are dyadic']


def series(rng):
    shape = (int(rng.integers(4, 12)), int(rng.integers(4, 12)))
    k = gen.size(rng, 1, 7, 14, .06)
    flow = ['uniform', 'noise', 'vortex', 'axis', 'diagonal', 'converge']
    out = []
    while len(out) < k:
        sc = gen.scenario(rng, shape=shape, modes=['depth_stage'],
                          nan=rng.random() < .2, f32=False,
                          flow=flow[int(rng.integers(6))],
                          depth=['wet', 'wet', 'bowl', 'islands', 'uniform'][
                              int(rng.integers(5))])
        if 'qx' in sc.arrays:
            s2 = gen.Scenario()
            s2.arrays = {q: np.asarray(sc.arrays[q], float) for q in
                         ('depth', 'stage', 'qx', 'qy')}
            out.append(s2)
    return out


def write(rng, folder, kind, flows):
    os.makedirs(folder)
    start = int(rng.integers(0, 80))
    mark = ['%03d', '_t%04d', '-%02d'][int(rng.integers(3))]
    # (in no order)
    for i in rng.permutation(len(flows)):
        a, m = flows[i].arrays, mark % (start + i)
        if kind == 'npz':
            np.savez(os.path.join(folder, 'data%s.npz' % m), **a)
            continue
        for q in a:
            f = os.path.join(folder, q + m + '.' + kind)
            if kind == 'npy':
                np.save(f, a[q])
            else:
                np.savetxt(f, a[q], delimiter=',')
    if rng.random() < .5:
        with open(os.path.join(folder, 'README.txt'), 'w') as f:
            f.write('model output\n')


FIELDS = ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'velocity', 'cell_type',
          'topography', 'dx', 'gamma', 'theta', 'dry_depth', 'diff_coeff')


def fields(P):
    return {k: np.array(getattr(P, k)) for k in FIELDS if hasattr(P, k)}


def other_field(a, b):
    for k in a:
        if k not in b or not np.array_equal(a[k], b[k], equal_nan=True):
            return k


class Watch(object):
    """The flow the particles are in each time they are told to move."""

    def __enter__(self):
        self.seen, self.run = [], pt.Particles.run_iteration

        def run(P, *a, **kw):
            self.seen.append(fields(P))
            return self.run(P, *a, **kw)
        pt.Particles.run_iteration = run
        return self.seen

    def __exit__(self, *a):
        pt.Particles.run_iteration = self.run


def case(c):
    rng = c.rng
    flows = series(rng)
    dx = float(rng.choice([1., 10., 50.]))
    n = gen.size(rng, 1, 6, 120, .05)
    shape = flows[0].shape
    refs = []
    for s in flows:
        s.options['dx'] = dx
        refs.append(Ref(s))
    k = int(rng.integers(1, 4))
    xs, ys = gen.seed_cells(rng, flows[0], k, 'inner', refs[0])
    v = np.median([np.median(r.speed) for r in refs]) + 1e-3
    ts = float(2.**np.round(np.log2(dx/v*rng.uniform(.5, 4))))
    if rng.random() < .06:
        ts *= 64
        c.count('long')
    if rng.random() < .4:       # (not a power of two)
        ts = round(ts*rng.uniform(.6, 1.4)*16/2.**np.floor(np.log2(ts)))/16 \
            * 2.**np.floor(np.log2(ts))
        if rng.random() < .5:
            ts = np.floor(ts) + float(rng.choice([.25, .5, .75]))
        ts = float(ts)
    asked = len(flows) if rng.random() < .5 else int(rng.integers(
        1, len(flows) + 1))
    if rng.random() < .25:
        asked = len(flows) + int(rng.integers(1, 4))
    done = min(asked, len(flows))
    if ts >= 1 and rng.random() < .3:
        ts = int(ts)
    c.desc = dict(flows=[s.arrays for s in flows], dx=dx, xs=xs, ys=ys, n=n,
                  timestep=ts, asked=asked)
    s = int(rng.integers(2**31))
    # one by one
    np.random.seed(s)
    states, wd = [], None
    depths, inside = [], []
    for i in range(done):
        P = pt.Particles(flows[i].params())
        depths.append(np.array(P.depth))
        inside.append(fields(P))
        if i == 0:
            P.generate_particles(n, list(xs), list(ys))
        else:
            P.generate_particles(0, [], [], previous_walk_data=wd)
        wd = P.run_iteration(target_time=ts*(i + 1))
        states.append(walk.snap(wd))
    want = states[-1]
    home = os.getcwd()
    place = os.path.join(home, 'c24-%d' % c.idx)
    os.makedirs(place)
    os.chdir(place)
    try:
        kinds = ['csv', 'npy', 'npz']
        rng.shuffle(kinds)
        for kind in kinds[:1 if c.idx % 3 else 3]:
            write(rng, os.path.join(place, kind), kind, flows)
            folder = ['out-' + kind, os.path.join(place, 'x', kind), None][
                int(rng.integers(3))]
            if folder is None:
                for q in ('figs', 'data'):
                    shutil.rmtree(os.path.join(place, q), True)
            elif rng.random() < .3:
                os.makedirs(folder)
                if rng.random() < .7:       # as of an earlier run
                    os.makedirs(os.path.join(folder, 'data'))
                    with open(os.path.join(folder, 'data', 'data.txt'),
                              'w') as f:
                        f.write(json.dumps(states[0])*int(rng.integers(
                            1, 40)))
                    c.count('rerun')
            kw = {} if folder is None else dict(folder_name=folder)
            np.random.seed(s)
            before = figs.tree(os.path.join(place, kind))
            with figs.recorded() as rec, hist.logged('WARNING') as log, \
                    Watch() as seen:
                got = routines.unsteady_plots(
                    dx, n, list(xs), list(ys), asked, ts,
                    os.path.join(place, kind), kind, **kw)
            bad = walk.same_walk(want, got) or walk.same_walk(got, want)
            c.check(bad is None, 'not the same as the timesteps done one by '
                    'one (%s): %s' % (kind, bad), asked=asked,
                    files=len(flows))
            if len(seen) == done:
                for i in range(done):
                    bad = other_field(inside[i], seen[i])
                    c.check(bad is None, 'particles move in another %s at '
                            'timestep %d (%s)' % (bad, i, kind))
                    c.count('flows_compared')
            c.check(figs.tree(os.path.join(place, kind)) == before,
                    'the model outputs were changed')
            folder = folder or place
            with open(os.path.join(folder, 'data', 'data.txt')) as f:
                back = json.load(f)
            bad = walk.same_walk(got, back) or walk.same_walk(back, got)
            c.check(bad is None, 'the data saved differ from those '
                    'returned: %s' % bad)
            fs = sorted(os.listdir(os.path.join(folder, 'figs')))
            c.check(fs == sorted('output%d.png' % i for i in range(done))
                    and len(rec) == done, 'not one figure per timestep',
                    files=fs, timesteps=done)
            for f in rec:
                i = int(os.path.basename(f.fname)[6:-4])
                st = states[i]
                c.check(f.has_image(depths[i]) or
                        f.has_image(flows[i].arrays['depth']),
                        'a figure does not show the depth of its timestep',
                        figure=i)
                c.check(f.has_points([y[0] for y in st['yinds']],
                                     [x[0] for x in st['xinds']])
                        is not None, 'a figure does not show the starts',
                        figure=i)
                c.check(f.has_points([y[-1] for y in st['yinds']],
                                     [x[-1] for x in st['xinds']])
                        is not None, 'a figure does not show the positions',
                        figure=i, shown=f.points)
                c.count('figures')
            if asked > len(flows):
                c.check(any(lv == 'WARNING' for lv, m in log), 'no warning '
                        'that there are fewer files than timesteps')
                c.count('clamped')
            c.count(kind)
            c.count('runs')
            c.count('timesteps', done)
            c.count('moves', sum(len(x) - 1 for x in got['xinds']))
        if c.idx % 10 == 0:
            try:
                np.random.seed(s)
                with figs.recorded():
                    routines.unsteady_plots(
                        dx, n, list(xs), list(ys), done, ts,
                        os.path.join(place, kinds[0]), 'nc', 'bad')
            except ValueError:
                c.count('other_type_refused')
            else:
                c.fail('an unknown type of files was accepted')
        if any(len(x) > 1 for x in want['xinds']):
            c.sig(want['xinds'], want['yinds'], asked)
            c.sample(dict(files=len(flows), asked=asked, timestep=ts,
                          moves=[len(x) - 1 for x in want['xinds']]))
    finally:
        os.chdir(home)
        shutil.rmtree(place, True)
