"""The changes in seeded/: edits, demonstrations, and what they need."""
LW = 'dorado/lagrangian_walker.py'
PT = 'dorado/particle_track.py'
PR = 'dorado/parallel_routing.py'
SP = 'dorado/spatial.py'
RT = 'dorado/routines.py'
LC = 'dorado/logging_config.py'

HEAD = '''
import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import numpy as np
import dorado.particle_track as pt
import dorado.lagrangian_walker as lw


def params(depth, stage, qx, qy, **kw):
    p = pt.modelParams()
    p.dx = kw.pop('dx', 10.)
    p.depth = np.array(depth, float)
    p.stage = np.array(stage, float)
    p.qx = np.array(qx, float)
    p.qy = np.array(qy, float)
    p.verbose = False
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def slope(n=12, m=12, **kw):
    """A sloping channel that flows east."""
    i, j = np.mgrid[0:n, 0:m]
    return params(np.ones((n, m))*2., 10. - .01*j, np.ones((n, m)),
                  np.zeros((n, m)), **kw)


def demand(cond, msg):
    if not cond:
        print('broken:', msg)
        sys.exit(1)


'''

SEEDS = {}
TIME_DATA = open('/repo/dorado/routines.py').read()
TIME_DATA = TIME_DATA[TIME_DATA.index('def time_plots'):]
TIME_DATA = TIME_DATA[:TIME_DATA.index('    json.dump')]


def seed(id, prop, breaks, needs, edits, demo, **kw):
    SEEDS[id] = dict(property=prop, breaks=breaks, needs=needs, edits=edits,
                     demo=HEAD + demo.lstrip('\n'), **kw)


seed('dry-limit-open', 'C02',
     'cells whose depth is exactly the dry depth count as wet',
     'a neighbor whose depth equals dry_depth exactly, with weight towards it',
     [(LW, "(depth_ind <= Particles.dry_depth)",
       "(depth_ind < Particles.dry_depth)")],
     '''
p = slope(dry_depth=.25, gamma=1.)
p.depth[:, 6:] = .25
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(50, [6], [5])
for k in range(4):
    w = P.run_iteration()
demand(max(max(y) for y in w['yinds']) < 6, 'a particle went into a dry cell')
''', count=3)

seed('cumulative-in-place', 'C03',
     'the cumulative weights overwrite the weights, so the second particle '
     'to leave a cell has other probabilities',
     'a cell that is left more than once in the same flow field',
     [(LW, "    cutoffs = np.cumsum(probs)  # cumulative sum of all "
       "probabilities\n    if cutoffs[-1] <= 0:",
       "    # cumulative sum of all probabilities\n"
       "    cutoffs = np.cumsum(probs, out=probs)\n    if cutoffs[-1] <= 0:")],
     '''
P = pt.Particles(slope(gamma=1.))
np.random.seed(1)
P.generate_particles(4000, [6], [4])
w = P.run_iteration()
north = np.mean([x[-1] == 5 for x in w['xinds']])
south = np.mean([x[-1] == 7 for x in w['xinds']])
demand(abs(north - south) < .06, 'north %.2f and south %.2f' % (north, south))
''')

seed('nearly-steepest', 'C04',
     'with steepest descent, weights within a percent of the highest count '
     'as ties',
     'a neighbor whose weight is close to, but below the highest',
     [(LW, "    probs[probs < max_val] = 0\n",
       "    # (but for rounding)\n"
       "    probs[probs < max_val*(1 - 1e-2)] = 0\n")],
     '''
p = slope(gamma=1., steepest_descent=True)
# southeast and northeast are (nearly) the same, east is not lower
i, j = np.mgrid[0:12, 0:12]
p.stage = 10. - .01*(j > 5)*(i != 6)*np.where(i > 6, 1., .998)
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(300, [6], [5])
w = P.run_iteration()
ends = {(x[-1], y[-1]) for x, y in zip(w['xinds'], w['yinds'])}
demand(ends == {(7, 6)}, 'went to %s' % ends)
''')

seed('previous-or-present', 'C06',
     'previous walk data are ignored if there are particles already',
     'generate_particles twice, the second time with previous_walk_data',
     [(PT, "        if previous_walk_data is not None:\n"
       "            # If the generator has been run before, or if new",
       "        elif previous_walk_data is not None:\n"
       "            # If the generator has been run before, or if new")],
     '''
P = pt.Particles(slope())
np.random.seed(1)
P.generate_particles(3, [5], [5])
for k in range(3):
    old = P.run_iteration()
Q = pt.Particles(slope())
Q.generate_particles(2, [6], [6])
Q.generate_particles(2, [7], [7], previous_walk_data=old)
demand(len(Q.walk_data['xinds']) == 7, 'particles were lost')
demand(Q.walk_data['xinds'][:3] == old['xinds'], 'previous data not first')
''')

seed('shared-step-count', 'C07',
     'the number of steps in a run to a target time is counted over all '
     'particles, so later ones stop early',
     'several particles that together take max_iter steps',
     [(PT, "                count = 1\n\n", "\n"),
      (PT, "            # Loop through all particles\n"
       "            for ii in list(range(self.Np_tracer)):\n"
       "                if len(all_times",
       "            count = 1\n"
       "            # Loop through all particles\n"
       "            for ii in list(range(self.Np_tracer)):\n"
       "                if len(all_times")],
     '''
P = pt.Particles(slope(8, 60, diff_coeff=0., gamma=0., theta=0.))
np.random.seed(1)
P.generate_particles(6, [4], [3])
w = P.run_iteration(target_time=300., max_iter=40)
for x, y, t in zip(w['xinds'], w['yinds'], w['travel_times']):
    if y[-1] < 57 and 1 < x[-1] < 6 and len(t) < 41:
        demand(t[-1] > 250., 'a particle stopped at %g' % t[-1])
''')

seed('remainder-from-the-end', 'C08',
     'exact seeding takes the left over particles from the end of the list',
     'a number of particles that is no multiple of the number of locations '
     'and at least two locations',
     [(PT, "                new_start_xindices = new_start_xindices + "
       "[seed_xloc[i]]\n                new_start_yindices = "
       "new_start_yindices + [seed_yloc[i]]\n",
       "                new_start_xindices = new_start_xindices + "
       "[seed_xloc[i - Np_divy[1]]]\n                new_start_yindices = "
       "new_start_yindices + [seed_yloc[i - Np_divy[1]]]\n")],
     '''
P = pt.Particles(slope())
P.generate_particles(8, [3, 4, 5], [6, 7, 8], method='exact')
got = [(x[0], y[0]) for x, y in zip(P.walk_data['xinds'],
                                    P.walk_data['yinds'])]
cells = [(3, 6), (4, 7), (5, 8)]
demand(got == [cells[k % 3] for k in range(8)], got)
''')

seed('flag-of-first', 'C09',
     'in runs to a target time tracked variables of a step are those of the '
     'cell that was left, if the particle has moved before',
     'a run to a target time with tracked variables, more than one step',
     [(PT, "                                optional_vars[var][ii].append("
       "updated_optional[var][0])\n",
       "                                optional_vars[var][ii].append(\n"
       "                                    updated_optional[var][0]\n"
       "                                    if count < 2 else\n"
       "                                    self.sampled(var, all_xinds[ii]"
       "[-2],\n                                                 "
       "all_yinds[ii][-2]))\n"),
      (PT, "    # function to clear walk data if you've made a mistake while "
       "generating it\n",
       "    # value of a tracked variable at a location\n"
       "    def sampled(self, var, x, y):\n"
       "        if var == 'roi_flag':\n"
       "            return 1 if self.roi_grid[x, y] == 1 else 0\n"
       "        return self.available_particle_vars[var][x, y]\n\n"
       "    # function to clear walk data if you've made a mistake while "
       "generating it\n")],
     '''
p = slope(10, 30, gamma=0., theta=0.)
p.stage = p.stage - .0001*np.mgrid[0:10, 0:30][0]
p.particle_variables = ['stage']
keep = p.stage.copy()
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(5, [5], [3])
w = P.run_iteration(target_time=300.)
for x, y, s in zip(w['xinds'], w['yinds'], w['stage']):
    demand(np.allclose(s, keep[x, y], atol=1e-12), 'stage of another cell')
''')

seed('speed-from-clipped-depth', 'C10',
     'flow given as velocity and depth is turned into discharge with the '
     'depth not below the dry depth',
     'velocity instead of discharge, cells shallower than dry_depth or '
     'particles near them',
     [(PT, "                self.u = -1*params.v\n"
       "                self.u[np.isnan(self.u)] = 0\n"
       "                self.qx = self.u*self.depth\n",
       "                self.u = -1*params.v\n"
       "                self.u[np.isnan(self.u)] = 0\n"
       "                self.qx = self.u*self.depth.clip(min=1.)\n")],
     '''
def make(kind):
    i, j = np.mgrid[0:12, 0:12]
    d = np.where((i + j) % 2, .5, 2.)
    u, v = np.ones((12, 12)), np.ones((12, 12))
    p = params(d, 10. + 0*d, u*d, v*d, gamma=0., theta=0.)
    if kind == 'velocity':
        p.qx = p.qy = None
        p.u, p.v = u, v
    return p
walks = []
for kind in ('discharge', 'velocity'):
    P = pt.Particles(make(kind))
    np.random.seed(3)
    P.generate_particles(60, [5, 6], [5, 6])
    for k in range(6):
        w = P.run_iteration()
    walks.append((w['xinds'], w['yinds']))
demand(walks[0] == walks[1], 'discharge and velocity walk differently')
''')

seed('cleaned-types', 'C11',
     'the cell types that the user gives are changed: dry cells become land '
     'in the array of the user',
     'cell types given by the user that do not mark all dry cells as land, '
     'and used again with another depth',
     [(PT, "            self.cell_type = params.cell_type\n",
       "            self.cell_type = params.cell_type\n"
       "            # dry cells are land, whatever else they are\n"
       "            self.cell_type[(self.depth <= self.dry_depth) &\n"
       "                           (self.cell_type != -1)] = 2\n")],
     '''
ct = np.ones((12, 12), int)
ct[0] = ct[-1] = -1
ct[:, 0] = ct[:, -1] = -1
keep = ct.copy()
p = slope(cell_type=ct)
p.depth[5:7, 5:7] = 0.
P = pt.Particles(p)
demand((ct == keep).all(), 'the cell types given were changed')
''')

seed('round-by-cast', 'C14',
     'coordinates are rounded by adding a half and cutting off, wrong west '
     'of (or above) the origin',
     'coordinates outside of the raster to the west',
     [(PT, "                   int(round((coordinates[i][0] - x_orig)/cellsize))"
       ")\n",
       "                   int((coordinates[i][0] - x_orig)/cellsize + 0.5))"
       "\n")],
     '''
inds = pt.coord2ind([(96.8, 120.), (97.2, 120.), (94., 120.)], (100., 100.),
                    (20, 20), 2.)
for (x, _), (_, j) in zip([(96.8, 0), (97.2, 0), (94., 0)], inds):
    demand(abs(100. + 2*j - x) <= 1.0001, 'off by %g' % (100. + 2*j - x))
''')

seed('region-carried-over', 'C16',
     'particles with a single step start in the region in which the one '
     'before them ended',
     'a particle that has two entries only, after one which ended in another '
     'region',
     [(PT, "        # Determine the starting region for particle ii\n"
       "        previous_reg =",
       "        # Determine the starting region for particle ii\n"
       "        if ii == 0 or len(walk_data['xinds'][ii]) != 2:\n"
       "            previous_reg ="),
      (PT, "region_of_interest[int(walk_data['xinds'][ii][0]),\n"
       "                                          int(walk_data['yinds'][ii]"
       "[0])]\n",
       "region_of_interest[\n"
       "                int(walk_data['xinds'][ii][0]),\n"
       "                int(walk_data['yinds'][ii][0])]\n")],
     '''
roi = np.zeros((5, 5), int)
roi[2] = 1
wd = {'xinds': [[1, 2, 2], [1, 1]], 'yinds': [[1, 1, 2], [1, 2]],
      'travel_times': [[0., 1., 2.], [0., 4.]]}
et = pt.exposure_time(wd, roi)
demand(np.allclose(et, [1.5, 0.]), et)
''')

seed('whole-chunk', 'C17',
     'localized exposure times count all of the chunk rather than the part '
     'of the region in it',
     'a chunk that is partly in the region',
     [(SP, "                region_chunk[r0:r1, c0:c1] = "
       "regions[r0:r1, c0:c1]\n",
       "                region_chunk[r0:r1, c0:c1] = 1\n")],
     '''
import dorado.spatial as spatial
ct = np.zeros((6, 6), int)
ct[:, 1] = 1
wd = {'xinds': [[1, 1, 1]], 'yinds': [[0, 1, 2]],
      'travel_times': [[0., 1., 2.]]}
out = spatial.localized(wd, np.zeros((6, 6)), ct, 3)
demand(np.allclose(out[0], [1.]), out)
''')

seed('smoothed-in-place', 'C18',
     'maps are smoothed in place, so that a window holds cells that have been '
     'smoothed already',
     'a map with more than one cell in a window (given as floats)',
     [(SP, "    smoothed = np.zeros_like(data, dtype='float')\n",
       "    smoothed = np.asarray(data, dtype='float')\n")],
     '''
import dorado.spatial as spatial
rng = np.random.RandomState(1)
a = rng.rand(6, 7)
b = a.copy()
out = spatial.median_absolute_deviation_filter(a, 3, 3)
for i in range(6):
    for j in range(7):
        v = b[max(i-1, 0):i+2, max(j-1, 0):j+2].ravel()
        m = np.median(v)
        d = np.median(np.abs(v - m))
        demand(abs(out[i, j] - v[np.abs(v - m) <= 3*d].mean()) < 1e-12,
               'cell %d, %d' % (i, j))
''')

seed('visits-once', 'C19',
     'several visits of a particle to the same cell count once',
     'a particle that comes back to a cell',
     [(PT, """        for jj in list(range(len(walk_data['xinds'][ii]))):
            visit_freq[walk_data['xinds'][ii][jj],
                       walk_data['yinds'][ii][jj]] += 1
""", """        visit_freq[np.array(walk_data['xinds'][ii], dtype=int),
                   np.array(walk_data['yinds'][ii], dtype=int)] += 1
""")],
     '''
wd = {'xinds': [[1, 2, 1, 2, 3]], 'yinds': [[1, 1, 1, 1, 1]],
      'travel_times': [[0., 1., 2., 3., 4.]]}
a = pt.nourishment_area(wd, (5, 5), sigma=0, clip=100)
demand(abs(a[3, 1] - .5) < 1e-12, a)
''')

seed('times-buffered', 'C20',
     'the times of several visits of a particle to the same cell are not '
     'summed, though the visits are',
     'a particle that comes back to a cell',
     [(PT, """            time_total[walk_data['xinds'][ii][jj],
                       walk_data['yinds'][ii][jj]] += 0.5*(last_dt + next_dt)
""", """            dt_in_cell[jj-1] = 0.5*(last_dt + next_dt)
        time_total[np.array(walk_data['xinds'][ii][1:-1], dtype=int),
                   np.array(walk_data['yinds'][ii][1:-1], dtype=int)] += \\
            dt_in_cell
"""), (PT, """        for jj in list(range(1, len(walk_data['xinds'][ii])-1)):
            # Running total""",
       """        dt_in_cell = np.zeros(max(len(walk_data['xinds'][ii])-2, 0))
        for jj in list(range(1, len(walk_data['xinds'][ii])-1)):
            # Running total""")],
     '''
wd = {'xinds': [[1, 2, 1, 2, 3]], 'yinds': [[1, 1, 1, 1, 1]],
      'travel_times': [[0., 1., 2., 3., 4.]]}
a = pt.nourishment_time(wd, (5, 5), sigma=0, clip=100)
demand(abs(a[2, 1] - 1.) < 1e-12, a)
''')

seed('discharge-made-positive', 'C21',
     'the discharge given by the user loses its sign',
     'an array of floats with negative values, looked at afterwards',
     [(PT, "    Q_abs = np.abs(Q)\n",
       "    Q_abs = np.asarray(Q)\n"
       "    Q_abs[Q_abs < 0] *= -1\n")],
     '''
q = np.array([1., -2., 3.])
n = pt.flux_proportional_seeding(q, 6, 3)
demand(list(n) == [1, 2, 3], n)
demand(list(q) == [1., -2., 3.], 'the discharge was changed')
''')

seed('state-by-bisection', 'C22',
     'get_time_state returns the first entry at or after the time instead of '
     'the nearest, where times repeat or the one before is nearer',
     'a time just after an entry, in a history with three or more entries',
     [(RT, "        tt = np.argmin(np.abs(times_ii - target_time))\n",
       "        tt = np.searchsorted(times_ii, target_time)\n"
       "        tt = min(tt, len(times_ii) - 1)\n"
       "        if tt == 1 and target_time - times_ii[0] <= "
       "times_ii[1] - target_time:\n"
       "            tt = 0\n")],
     '''
import dorado.routines as routines
wd = {'xinds': [[1, 2, 3, 4]], 'yinds': [[1, 1, 1, 1]],
      'travel_times': [[0., 10., 20., 30.]]}
x, y, t = routines.get_time_state(wd, 21.)
demand((x, t) == ([3], [20.]), (x, t))
''')

seed('times-of-the-start', 'C23',
     'the figures of time_plots are colored by the times of the first '
     'iteration throughout',
     'more than one iteration, and a look at the colors of a later figure',
     [(RT, "            sc.set_array(np.array(temptimes)) # Color values\n",
       "            sc.set_array(np.ma.asarray(sc.get_array()))\n")],
     '''
import tempfile, shutil
import matplotlib.pyplot as plt
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    P = pt.Particles(slope())
    np.random.seed(1)
    P.generate_particles(5, [5], [3])
    seen = []
    from matplotlib.figure import Figure
    real = Figure.savefig

    def spy(fig, *a, **k):
        for s in fig.axes[0].collections:
            if s.get_array() is not None:
                seen.append(list(np.asarray(s.get_array())))
    Figure.savefig = spy
    w = routines.time_plots(P, 4, d)
    Figure.savefig = real
    last = [t[-1] for t in w['travel_times']]
    demand(np.allclose(seen[-1], last), (seen[-1], last))
finally:
    shutil.rmtree(d)
''')

seed('stage-read-once', 'C24',
     'the stage of the first file is used for all timesteps, with npz files',
     'npz files whose stage changes with time',
     [(RT, "            params.stage = data['stage']\n",
       "            if i == 0:\n"
       "                params.stage = data['stage']\n")],
     '''
import tempfile, shutil
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    out = []
    for kind in ('npy', 'npz'):
        o = os.path.join(d, kind)
        os.makedirs(o)
        for k in range(3):
            i, j = np.mgrid[0:20, 0:20]
            a = dict(depth=np.ones((20, 20)), qx=np.zeros((20, 20)),
                     qy=np.zeros((20, 20)),
                     stage=10. - .01*[j, i, -j][k])
            a['qx'][...] = .5
            if kind == 'npz':
                np.savez(o + '/data%d.npz' % k, **a)
            else:
                for q in a:
                    np.save(o + '/%s%d.npy' % (q, k), a[q])
        np.random.seed(1)
        out.append(routines.unsteady_plots(5., 10, [9, 10], [9, 10], 3, 20., o,
                                           kind, os.path.join(d, 'r' + kind)))
    demand(out[0] == out[1], 'npy and npz give different walks')
finally:
    shutil.rmtree(d)
''')

seed('share-of-those-drawn', 'C25',
     'the curves are relative to the particles that have left, not to all',
     'a particle that never entered, or never left the region',
     [(RT, "    frac_exited = np.arange(0, num_particles_included + 1,\n"
       "                            dtype='float') / Np_tracer\n",
       "    Np_tracer = max(num_particles_included, 1)\n"
       "    frac_exited = np.arange(0, num_particles_included + 1,\n"
       "                            dtype='float') / Np_tracer\n")],
     '''
import matplotlib.pyplot as plt
import dorado.routines as routines
wd = {'xinds': [[1]*2]*6, 'yinds': [[1]*2]*6,
      'travel_times': [[0., 100.]]*6}
routines.plot_exposure_time_thresholds(wd, [10., 20., 30., 0., 0., 0.],
                                       save_output=False)
y = [l.get_ydata() for a in plt.gcf().axes for l in a.lines
     if len(l.get_ydata()) > 10]
demand(abs(max(y[0]) - .5) < 1e-9, max(y[0]))
''')

seed('level-of-handler', 'C26',
     'an added handler keeps the level it was set up with: later more '
     'detailed levels do not reach it',
     'setup_logging first with a high, then with a low level',
     [(LC, "        logger.addHandler(h)\n",
       "        h.setLevel(numeric_level)\n"
       "        logger.addHandler(h)\n")],
     '''
import logging, io
import dorado
s = io.StringIO()
h = logging.StreamHandler(s)
dorado.setup_logging('ERROR', handler=h)
dorado.setup_logging('INFO')
logging.getLogger('dorado').info('hello')
demand('hello' in s.getvalue(), 'the message did not arrive')
''')

seed('path-by-rank', 'C27',
     'draw_travel_path draws the first particles instead of those asked for',
     'a list of particles that is not 0, 1, 2, ...',
     [(RT, "    for i in tqdm(particles_to_follow):\n",
       "    for i in tqdm(range(len(particles_to_follow))):\n")],
     '''
import tempfile, shutil
import matplotlib.pyplot as plt
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    wd = {'xinds': [[1, 2], [3, 4], [5, 6]], 'yinds': [[1, 1], [2, 2], [3, 3]],
          'travel_times': [[0., 1.]]*3}
    routines.draw_travel_path(np.zeros((8, 8)), wd, [2, 0], d + '/paths.png')
    segs = plt.gcf().axes[0].collections[0].get_segments()
    want = [[[3, 5], [3, 6]], [[1, 1], [1, 2]]]
    demand(np.array_equal(np.array(segs), want), segs)
finally:
    shutil.rmtree(d)
''')

seed('sorted-in-place', 'C28',
     'an array of exposure times given to plot_exposure_time_thresholds is '
     'sorted, so that they no longer belong to their particles',
     'exposure times given as an array, and used again',
     [(RT, "    exposure_times = np.array(exposure_times)\n\n"
       "    if uniform_timesteps:\n",
       "    exposure_times = np.asarray(exposure_times)\n"
       "    exposure_times.sort()\n\n"
       "    if uniform_timesteps:\n"),
      (RT, "    plotting_times = plotting_times[plotting_times < 0.99 * "
       "end_time]\n    num_particles_included = len(plotting_times)\n\n"
       "    full_time_vect = np.append([0], np.sort(plotting_times))\n",
       "    plotting_times = plotting_times[plotting_times < 0.99 * "
       "end_time]\n    num_particles_included = len(plotting_times)\n\n"
       "    full_time_vect = np.append([0], plotting_times)\n")],
     '''
import dorado.routines as routines
wd = {'xinds': [[1]*2]*4, 'yinds': [[1]*2]*4,
      'travel_times': [[0., 100.]]*4}
et = np.array([30., 10., 20., 0.])
routines.plot_exposure_time_thresholds(wd, et, save_output=False)
demand(list(et) == [30., 10., 20., 0.], et)
''')

seed('memory-of-step', 'C29',
     'the estimate of the next time step is only made from the history if the '
     'object has run to a target time before, so a resumed run goes on '
     'differently',
     'a run to target times that is saved and resumed in a new object',
     [(PT, "                if len(all_times[ii]) > 1:\n",
       "                if len(all_times[ii]) > 1 and \\\n"
       "                        getattr(self, '_running', True):\n"),
      (PT, "        init_walk_data = dict()  # create init_walk_data "
       "dictionary\n",
       "        # (new particles have no steps to go by)\n"
       "        self._running = previous_walk_data is None\n"
       "        init_walk_data = dict()  # create init_walk_data "
       "dictionary\n"),
      (PT, "            # re-write the walk_data attribute of self\n",
       "            self._running = True\n"
       "            # re-write the walk_data attribute of self\n")],
     '''
import json
def fresh():
    return pt.Particles(slope(10, 80, diff_coeff=.5, dx=20.))
np.random.seed(1)
P = fresh()
P.generate_particles(10, [5], [3])
P.run_iteration(target_time=100.)
text = json.dumps(P.walk_data)
s = np.random.get_state()
for t in (105., 111., 200.):
    w = P.run_iteration(target_time=t)
np.random.set_state(s)
Q = fresh()
Q.generate_particles(0, [], [], previous_walk_data=json.loads(text))
for t in (105., 111., 200.):
    v = Q.run_iteration(target_time=t)
demand(v == w, 'the resumed run is another one')
''')

seed('small-integers', 'C01',
     'positions are stored as 16-bit integers and wrap around in large '
     'domains',
     'a domain with more than 32767 rows or columns',
     [(LW, "    new_inds = np.array(new_inds, dtype=np.int32)\n",
       "    new_inds = np.array(new_inds, dtype=np.int32).astype(np.int16)\n")],
     '''
P = pt.Particles(slope(13, 32800, gamma=0., theta=0.))
np.random.seed(1)
P.generate_particles(10, [6], [32765])
for k in range(9):
    w = P.run_iteration()
for y in w['yinds']:
    demand(all(abs(a - b) <= 1 for a, b in zip(y[:-1], y[1:])), y)
''')

seed('backward-takes-time', 'C05',
     'steps against the flow take as much time as steps with it, rather than '
     'none',
     'a step at more than a right angle to the flow',
     [(LW, "        projected_dist = dist*max(0, cos(",
       "        projected_dist = dist*abs(cos("),
      (LW, "                                  Particles.velocity_angle[ind[0],"
       " ind[1]]))\n",
       "                                  Particles.velocity_angle[ind[0],"
       " ind[1]]))\n")],
     '''
P = pt.Particles(slope(diff_coeff=0., gamma=1.))
P.stage[...] = 0
p = slope(diff_coeff=0., gamma=1.)
p.stage = p.stage[:, ::-1].copy()      # uphill to the east, flow to the east
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(50, [6], [6])
w = P.run_iteration()
for y, t in zip(w['yinds'], w['travel_times']):
    demand(y[-1] != 5 or t[-1] == 0., 'a step backward took %g' % t[-1])
''')

seed('ties-from-elsewhere', 'C12',
     'ties in steepest descent are decided by another generator, which is '
     'not set by the state of numpy',
     'steepest descent with ties, twice from the same random state',
     [(LW, "    # will pick either the index corresponding to the max value if "
       "there\n    # is just 1, or it will randomly choose between values in "
       "the event\n    # of a tie\n    cutoffs = np.cumsum(probs)  # "
       "cumulative sum of all probabilities\n    idx = cutoffs.searchsorted("
       "np.random.uniform(0, cutoffs[-1]))\n",
       "    # will pick either the index corresponding to the max value if "
       "there\n    # is just 1, or it will randomly choose between values in "
       "the event\n    # of a tie\n"
       "    if np.count_nonzero(probs) > 1:\n"
       "        pick = np.random.default_rng().uniform\n"
       "    else:\n"
       "        pick = np.random.uniform\n"
       "    cutoffs = np.cumsum(probs)  # "
       "cumulative sum of all probabilities\n    idx = cutoffs.searchsorted("
       "pick(0, cutoffs[-1]))\n")],
     '''
i, j = np.mgrid[0:12, 0:12]
walks = []
for k in range(2):
    p = slope(steepest_descent=True, gamma=1.)
    p.stage = 10. - .01*abs(j - 6.)
    P = pt.Particles(p)
    np.random.seed(1)
    P.generate_particles(40, [6], [6])
    walks.append(P.run_iteration()['yinds'])
demand(walks[0] == walks[1], 'ties are not reproducible')
''')

seed('one-core-here', 'C13',
     'with one core the particles are routed in the process of the caller, so '
     'the object given has particles afterwards',
     'num_cores = 1, and a look at the object (or another run with it)',
     [(PR, "    p = Pool(processes=num_cores)\n"
       "    par_result = p.map(run_iter, p_list)\n"
       "    p.terminate()\n",
       "    if num_cores > 1:\n"
       "        p = Pool(processes=num_cores)\n"
       "        par_result = p.map(run_iter, p_list)\n"
       "        p.terminate()\n"
       "    else:\n"
       "        par_result = [run_iter(p_list[0])]\n")],
     '''
import dorado.parallel_routing as pr
if __name__ == '__main__':
    P = pt.Particles(slope())
    np.random.seed(1)
    w = pr.parallel_routing(P, 3, 2, [5], [3], 1)
    w = pr.parallel_routing(P, 3, 2, [5], [3], 1)
    demand(len(w['xinds']) == 2, '%d particles' % len(w['xinds']))
    demand(P.walk_data is None, 'the object has particles now')
''')

seed('offset-of-distance', 'C15',
     'interpolation weights have an offset, so fine grids in degrees are '
     'smeared and no longer exact at the points',
     'points that are much closer than a meter, as in decimal degrees',
     [(PT, "        nn_wts = 1./(NNInfo[0]+1.0e-100)\n",
       "        nn_wts = 1./(NNInfo[0]+1.0e-7)\n")],
     '''
pts = [(j*1e-5, i*1e-5) for i in range(5) for j in range(5)]
val = [float(k) for k in range(25)]
f, g = pt.unstruct2grid(pts, val, 1e-5, 3)
want = np.flipud(np.array(val).reshape(5, 5))
demand(np.nanmax(np.abs(g[-5:, :5] - want)) < 1e-3, 'not exact at the points')
''')

seed('frames-from-zero', 'C30',
     'frames are numbered from 0 instead of the first number asked for',
     'a first number other than 0',
     [(RT, "frames=list(range(start_val, end_val)),",
       "frames=end_val - start_val,")],
     '''
import tempfile, shutil
import matplotlib.pyplot as plt
from matplotlib import animation
import dorado.routines as routines
d = tempfile.mkdtemp()
read = []


class Writer(animation.AbstractMovieWriter):
    def __init__(self, fps=5, metadata=None, codec=None, bitrate=None,
                 extra_args=None):
        super().__init__(fps, metadata, codec, bitrate)

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi)

    def grab_frame(self, **k):
        a = np.asarray(self.fig.axes[0].images[0].get_array())
        read.append(int(round(a[..., :3].max()*255)))

    def finish(self):
        pass

    @classmethod
    def isAvailable(cls):
        return True


animation.writers.register('ffmpeg')(Writer)
try:
    os.makedirs(d + '/figs')
    for k in range(6):
        a = np.zeros((30, 40, 3))
        a[3:9, 5:9] = (k*20 + 10)/255.
        plt.imsave(d + '/figs/output%d.png' % k, a)
    routines.animate_plots(2, 5, d)
    read = [v for v in read if v]
    demand(read == [50, 70, 90], read)
finally:
    shutil.rmtree(d)
''')

seed('estimate-at-ten-centimeters', 'C31',
     'cell types are estimated with the default dry depth, not the one given',
     'dry_depth given, cell_type not, and depths between it and 0.1',
     [(PT, "self.cell_type[self.depth < self.dry_depth] = 2",
       "self.cell_type[self.depth < 0.1] = 2")],
     '''
def run(**kw):
    p = slope(dry_depth=.01, **kw)
    p.depth[:, 5:] = .05
    P = pt.Particles(p)
    np.random.seed(3)
    P.generate_particles(3, [5, 6], [3])
    for _ in range(5):
        wd = P.run_iteration()
    return [wd[k] for k in ('xinds', 'yinds', 'travel_times')]


ct = np.pad(np.zeros((10, 10), int), 1, 'constant', constant_values=-1)
a, b = run(), run(cell_type=ct)
demand(a == b, 'giving the cell types as they are estimated matters')
demand(max(max(y) for y in a[1]) > 5, 'no particle in shallow water')
''')

seed('thousand-steps', 'C31',
     'without a limit given, runs to a target time end after 1000 iterations',
     'a particle that needs over 1000 iterations, and no max_iter given',
     [(PT, "def run_iteration(self, target_time=None, max_iter=1e4):",
       "def run_iteration(self, target_time=None, max_iter=1e3):")],
     '''
n = 6
p = params(np.ones((n, n)), np.ones((n, n)), np.zeros((n, n)),
           np.zeros((n, n)), dx=1., model='DeltaRCM', gamma=0.,
           cell_type=np.zeros((n, n), int), steepest_descent=True)
p.qx[2, 2], p.qy[3, 2], p.qx[3, 3], p.qy[2, 3] = 1., 1., -1., -1.
P = pt.Particles(p)
P.generate_particles(1, [2], [2])
wd = P.run_iteration(target_time=2000.)
demand(abs(wd['travel_times'][0][-1] - 2000) < 2, wd['travel_times'][0][-1])
''')

seed('legend-sorted', 'C27',
     'labels of the legend of paths are sorted, the colors are not',
     'particles to follow not in ascending order, with a legend',
     [(RT, "[str(i) for i in particles_to_follow]",
       "[str(i) for i in sorted(particles_to_follow)]")],
     '''
import tempfile, shutil
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    wd = dict(xinds=[[1, 2, 3], [5, 5, 5], [8, 7, 6]],
              yinds=[[1, 1, 1], [1, 2, 3], [4, 4, 4]],
              travel_times=[[0., 1., 2.]]*3)
    routines.draw_travel_path(np.ones((10, 10)), wd, [2, 0, 1],
                              output_file=d + '/p.png', plot_legend=True)
    ax = plt.gcf().axes[0]
    lc = ax.collections[0]
    color = {tuple(map(tuple, s)): tuple(c[:3]) for s, c in zip(
        lc.get_segments(), lc.get_colors())}
    lg = ax.get_legend()
    for t, h in zip(lg.get_texts(), lg.get_lines()):
        k = int(t.get_text())
        line = tuple(zip(map(float, wd['yinds'][k]),
                         map(float, wd['xinds'][k])))
        demand(np.allclose(color[line], to_rgba(h.get_color())[:3]), k)
finally:
    shutil.rmtree(d)
''')

seed('colors-reseeded', 'C28',
     'drawing paths seeds the random generator, so runs that go on after it '
     'are all alike',
     'a run that goes on after paths were drawn, from different states',
     [(RT, "        c = np.random.rand(3,)\n",
       "        np.random.seed(i)\n        c = np.random.rand(3,)\n")],
     '''
import tempfile, shutil
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    out = []
    for s in (1, 2):
        np.random.seed(s)
        wd = dict(xinds=[[1, 2]], yinds=[[1, 1]], travel_times=[[0., 1.]])
        routines.draw_travel_path(np.ones((4, 4)), wd,
                                  output_file=d + '/p.png')
        out.append(np.random.random())
    demand(out[0] != out[1], 'the random state was set')
finally:
    shutil.rmtree(d)
''')

seed('older-steps-dropped', 'C24',
     'unsteady runs keep the last 200 steps of a particle only',
     'over 200 iterations within the timesteps before the last',
     [(RT, "            particle.generate_particles(0, [], [], method='random',\n"
       "                                        previous_walk_data=walk_data)",
       "            particle.generate_particles(0, [], [], method='random',\n"
       "                                        previous_walk_data={\n"
       "                                            k: [x[-200:] for x in v]\n"
       "                                            for k, v in\n"
       "                                            walk_data.items()})")],
     '''
import tempfile, shutil
import dorado.routines as routines
d = tempfile.mkdtemp()
home = os.getcwd()
try:
    os.makedirs(d + '/in')
    n, m = 121, 330
    i, j = np.mgrid[0:n, 0:m]
    for k in range(2):
        np.savez(d + '/in/data%d.npz' % k, depth=np.ones((n, m)),
                 stage=10. - .01*j, qx=np.ones((n, m)), qy=np.zeros((n, m)))
    os.chdir(d)
    np.random.seed(1)
    wd = routines.unsteady_plots(1., 1, [60], [2], 2, 250., d + '/in', 'npz',
                                 d + '/out')
    demand(wd['travel_times'][0][0] == 0 and len(wd['xinds'][0]) > 230,
           'the start is gone: %d entries' % len(wd['xinds'][0]))
finally:
    os.chdir(home)
    shutil.rmtree(d)
''')

seed('dry-depth-rounded', 'C02',
     'the dry depth is rounded to millimeters',
     'a dry depth that is no whole number of millimeters, and depths next '
     'to it',
     [(PT, "            self.dry_depth = params.dry_depth\n",
       "            self.dry_depth = round(float(params.dry_depth), 3)\n")],
     '''
p = slope(dry_depth=.0124, theta=0., cell_type=np.zeros((12, 12), int))
p.depth[:, 6] = .0122
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(20, [5], [4])
for _ in range(20):
    wd = P.run_iteration()
demand(max(max(y) for y in wd['yinds']) < 6, 'entered a dry cell')
''')

seed('weights-that-sum-to-less', 'C08',
     'weights of seeding locations that sum to less than 1 favor the last',
     'weights given, whose sum is below 1',
     [(LW, "    cutoffs = np.cumsum(probs)\n"
       "    idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))",
       "    cutoffs = np.cumsum(probs)\n"
       "    idx = min(cutoffs.searchsorted(\n"
       "        np.random.uniform(0, max(cutoffs[-1], 1))),\n"
       "        len(choices) - 1)")],
     '''
np.random.seed(1)
r = [lw.random_pick_seed([3, 4], [.1, .1]) for _ in range(2000)]
demand(800 < r.count(3) < 1200, r.count(3))
''')

seed('exposure-in-single', 'C16',
     'exposure times are kept in single precision',
     'times with more than seven digits',
     [(PT, "    exposure_times = np.zeros([Np_tracer], dtype='float')",
       "    exposure_times = np.zeros([Np_tracer], dtype='float32')")],
     '''
wd = dict(xinds=[[1, 1, 1, 1]], yinds=[[0, 1, 2, 3]],
          travel_times=[[0., 86400.25, 31536001.5, 41536001.75]])
e = pt.exposure_time(wd, np.ones((4, 4), int))
demand(abs(e[0] - 41536001.75) < 1e-6, e)
''')

seed('short-times-dropped', 'C18',
     'exposure times below a thousandth are taken for none',
     'times in large units, or of small cells',
     [(SP, "if x != 0 and not np.isnan(x)]",
       "if x > 1e-3 and not np.isnan(x)]")],
     '''
import dorado.spatial as spatial
v = [1., 2., 3., 4., 5., 7., 9., 2.5]
a = spatial.compute_thresholds([v], np.zeros((2, 2)), 1., 2)
b = spatial.compute_thresholds([[x*1e-4 for x in v]], np.zeros((2, 2)), 1e-4,
                               2)
demand(np.allclose(a, b, rtol=1e-6), (a, b))
''')

seed('times-in-single', 'C22',
     'the nearest time is found in single precision',
     'times since an epoch, with more than seven digits',
     [(RT, "        times_ii = np.array(walk_data['travel_times'][ii])",
       "        times_ii = np.array(walk_data['travel_times'][ii],\n"
       "                            dtype=np.float32)")],
     '''
import dorado.routines as routines
t = 1.6e9
wd = dict(xinds=[[1, 2, 3]], yinds=[[4, 5, 6]],
          travel_times=[[t, t + 10., t + 20.]])
x, y, q = routines.get_time_state(wd, t + 11.)[:3]
demand(list(x) == [2] and list(q) == [t + 10.], (x, y, q))
''')

seed('narrow-smoothing', 'C19',
     'smoothing of visit frequencies ends at three standard deviations',
     'cells between three and four standard deviations from a visited one',
     [(PT, "        visit_freq = gaussian_filter(visit_freq, sigma=sigma)\n",
       "        visit_freq = gaussian_filter(visit_freq, sigma=sigma,\n"
       "                                     truncate=3.)\n")],
     '''
wd = dict(xinds=[[6, 6]], yinds=[[6, 6]], travel_times=[[0., 1.]])
a = pt.nourishment_area(wd, (13, 13), sigma=1., clip=100)
demand(a[6, 10] > 0, 'not smoothed to four standard deviations')
''')

seed('times-rounded-on-loading', 'C29',
     'times of previous walk data are rounded to nanoseconds',
     'a run resumed, with times that are no whole number of nanoseconds',
     [(PT, "            prev_times = previous_walk_data['travel_times']\n",
       "            prev_times = [[round(t, 9) for t in x] for x in\n"
       "                          previous_walk_data['travel_times']]\n")],
     '''
import json
p = slope(dx=1e-6)
P = pt.Particles(p)
np.random.seed(1)
P.generate_particles(2, [5], [3])
for _ in range(3):
    P.run_iteration()
data = json.loads(json.dumps(P.walk_data, default=float))
Q = pt.Particles(p)
np.random.seed(2)
Q.generate_particles(0, [], [], previous_walk_data=data)
a = Q.run_iteration()
np.random.seed(2)
b = P.run_iteration()
demand(a['travel_times'] == b['travel_times'], 'resumed differently')
''')

seed('earlier-data-kept', 'C23',
     'time_plots does not replace the data of an earlier run',
     'a second run into the same folder',
     [(RT, TIME_DATA, TIME_DATA.replace(
         "    fpath = folder_name+os.sep+'data'+os.sep+'data.txt'\n",
         "    fpath = folder_name+os.sep+'data'+os.sep+'data.txt'\n"
         "    if os.path.exists(fpath):\n"
         "        fpath = fpath.replace('data.txt', 'data_%d.txt' % num_iter)\n"
     ))],
     '''
import tempfile, shutil, json
import dorado.routines as routines
d = tempfile.mkdtemp()
try:
    for k in range(2):
        P = pt.Particles(slope())
        P.generate_particles(2, [5], [3])
        wd = routines.time_plots(P, 2, d + '/out')
    try:
        with open(d + '/out/data/data.txt') as f:
            back = json.load(f)
    except ValueError as e:
        demand(False, e)
    demand(back['xinds'] == [list(map(int, x)) for x in wd['xinds']], back)
finally:
    shutil.rmtree(d)
''')

seed('coordinates-in-single', 'C14',
     'coordinates are converted in single precision',
     'projected coordinates and small cells',
     [(PT, "                   int(round((coordinates[i][0] - x_orig)/cellsize)))",
       "                   int(round(float((np.float32(coordinates[i][0]) -\n"
       "                                    np.float32(x_orig))/cellsize))))")],
     '''
x0 = 4123456.
c = [(x0 + .1*j, 0.) for j in range(10)]
r = pt.coord2ind(c, (x0, 0.), (10, 10), .1)
demand([q[1] for q in r] == list(range(10)), r)
''')

seed('weak-flow-not-normalized', 'C03',
     'flow weights of less than 1e-10 are not normalized',
     'discharges below 1e-10, as in other units',
     [(LW, "    idx_int = tile_domain_array((norm_int > 0))",
       "    idx_int = tile_domain_array((norm_int > 1e-10))")],
     '''
out = []
for f in (1., 2.**-45):
    p = slope(gamma=.5)
    i, j = np.mgrid[0:12, 0:12]
    p.stage = 10. - .01*i
    p.qx *= f
    P = pt.Particles(p)
    np.random.seed(1)
    P.generate_particles(30, [4], [4])
    for _ in range(4):
        wd = P.run_iteration()
    out.append((wd['xinds'], wd['yinds']))
demand(out[0] == out[1], 'the strength of the flow changes the way')
''')

seed('nearest-fraction', 'C25',
     'the smooth curve shows the nearest fraction, not the one so far',
     'any time just before a particle leaves',
     [(RT, "    # Here we use 'previous' interpolation to be maximally accurate"
       " in time\n"
       "    create_smooth_CDF = scipy.interpolate.interp1d(full_time_vect,\n"
       "                                                   frac_exited,\n"
       "                                                   kind='previous')",
       "    # Here we use 'previous' interpolation to be maximally accurate"
       " in time\n"
       "    create_smooth_CDF = scipy.interpolate.interp1d(full_time_vect,\n"
       "                                                   frac_exited,\n"
       "                                                   kind='nearest')")],
     '''
import tempfile, shutil
import matplotlib.pyplot as plt
import dorado.routines as routines
plt.close('all')
wd = dict(xinds=[[1, 2]]*4, yinds=[[1, 1]]*4,
          travel_times=[[0., 100.]]*4)
routines.plot_exposure_time(wd, [20., 40., 60., 80.], nbins=21,
                            save_output=False)
curves = [ln.get_xydata() for k in plt.get_fignums()
          for ax in plt.figure(k).axes for ln in ax.lines]
smooth = [c for c in curves if len(c) == 21][0]
for t, y in smooth:
    want = sum(e <= t + 1e-9 for e in (20., 40., 60., 80.))/4.
    demand(abs(y - want) < 1e-12, (t, y, want))
plt.close('all')
''')

seed('tenth-before-ninth', 'C30',
     'frames are in the order of the names of the figures',
     'a range of figures from below 10 to above',
     [(RT, "frames=list(range(start_val, end_val)),",
       "frames=sorted(range(start_val, end_val), key=str),")],
     SEEDS['frames-from-zero']['demo'][len(HEAD):].replace(
         'range(6)', 'range(12)').replace('k*20 + 10', 'k*10 + 10').replace(
             'animate_plots(2, 5, d)', 'animate_plots(8, 12, d)').replace(
                 '[50, 70, 90]', '[90, 100, 110, 120]'))

seed('no-time-not-averaged', 'C20',
     'visits that took no time are left out of the mean time',
     'two entries with the same time around a visit',
     [(PT, "            # Running total of particles in this cell to find average"
       "\n",
       "            if walk_data['travel_times'][ii][jj+1] == \\\n"
       "                    walk_data['travel_times'][ii][jj-1]:\n"
       "                continue\n"
       "            # Running total of particles in this cell to find average"
       "\n")],
     '''
wd = dict(xinds=[[1, 2, 3], [3, 2, 1]], yinds=[[2, 2, 2], [2, 2, 2]],
          travel_times=[[5., 5., 5.], [0., 2., 4.]])
a = pt.nourishment_time(wd, (5, 5), sigma=0, clip=100)
demand(abs(a[2, 2] - 1.) < 1e-9, 'mean time %g' % a[2, 2])
''')

seed('short-of-the-last', 'C15',
     'the grid ends before the last point if that is just beyond a cell',
     'an extent in x of slightly more than a whole number of cells',
     [(PT, "    nx = int(np.ceil((max(x)-min(x))/cellsize)+1)",
       "    nx = int((max(x)-min(x))//cellsize + 1) + int(\n"
       "        (max(x)-min(x)) % cellsize > .01*cellsize)")],
     '''
pts = [(0., 0.), (10.05, 0.), (0., 10.), (10.05, 10.), (5., 5.)]
f, g = pt.unstruct2grid(pts, [1., 2., 3., 4., 5.], 10., 1, crop=False)
demand((g.shape[1] - 1)*10. >= 10.05, g.shape)
''')

seed('weights-kept-by-sum', 'C03',
     'routing weights are reused for the next object, if its parameters and '
     'the sums of its stage and depth are the same',
     'two objects in succession whose flow differs, but not the sum of depths '
     'and of stages',
     [(LW, "    L, W = Particles.stage.shape\n\n    # calculate surface",
       "    L, W = Particles.stage.shape\n"
       "    key = (L, W, Particles.theta, Particles.gamma, Particles.dry_depth,\n"
       "           float(np.nansum(Particles.stage)), float(Particles.depth.sum()"
       "))\n"
       "    if getattr(make_weight, 'key', None) == key:\n"
       "        Particles.weight = make_weight.kept.copy()\n"
       "        return\n\n    # calculate surface"),
      (LW, "    Particles.weight = weight\n",
       "    Particles.weight = weight\n"
       "    make_weight.key, make_weight.kept = key, weight.copy()\n")],
     '''
a, b = slope(gamma=0.), slope(gamma=0.)
b.qx, b.qy = -b.qx, b.qy
for p, way in ((a, 1), (b, -1)):
    P = pt.Particles(p)
    P.generate_particles(50, [5], [5])
    wd = P.run_iteration()
    demand(all(way*(y[1] - y[0]) >= 0 for y in wd['yinds']),
           'particles move against the flow')
''')

seed('choice-shared-by-cell', 'C03',
     'particles in the same cell all take the same way in an iteration',
     'several particles in one cell, judged together: each of them alone '
     'follows the documented probabilities',
     [(LW, """    new_cells = [get_weight(Particles, x)
                 if x != (0, 0) else 4 for x in inds_tuple]""",
       """    cells = {}
    for x in inds_tuple:
        if x not in cells:
            cells[x] = get_weight(Particles, x) if x != (0, 0) else 4
    new_cells = [cells[x] for x in inds_tuple]""")],
     '''
np.random.seed(1)
p = slope(gamma=0., theta=0.)
p.qx[:] = 0.
p.qy[:] = 0.
p.stage[:] = 10.
p.qx[5, 5], p.qy[5, 5] = 1., .9
P = pt.Particles(p)
P.generate_particles(200, [5], [5])
wd = P.run_iteration()
demand(len(set(zip([x[-1] for x in wd['xinds']],
                   [y[-1] for y in wd['yinds']]))) > 1,
       'all particles went the same way')
''')

seed('ties-remembered', 'C04',
     'in a cell with a tie, all particles take the way of the first',
     'steepest descent, a tie, and more than one particle through that cell',
     [(LW, "        new_cell = steep_descent("
       "Particles.weight[ind[0], ind[1], :])",
       "        known = Particles.__dict__.setdefault('_steepest', {})\n"
       "        if ind not in known:\n"
       "            known[ind] = steep_descent("
       "Particles.weight[ind[0], ind[1], :])\n"
       "        new_cell = known[ind]")],
     '''
np.random.seed(1)
i, j = np.mgrid[0:11, 0:11]
p = slope(11, 11, gamma=1., theta=0., steepest_descent=True)
p.stage = 10. - .5*np.abs(i - 5.)
P = pt.Particles(p)
P.generate_particles(300, [5], [5])
wd = P.run_iteration()
demand(len({x[-1] for x in wd['xinds']}) == 2, 'ties are not random')
''')

seed('hundred-iterations-a-core', 'C13',
     'each core does at most 100 iterations',
     'more than 100 iterations, of particles that do not leave',
     [(PR, "range(0, pobj.num_iter)", "range(0, min(pobj.num_iter, 100))")],
     '''
import dorado.parallel_routing as pr
if __name__ == '__main__':
    p = slope(12, 12, gamma=0.)
    i, j = np.mgrid[0:12, 0:12]
    p.qx, p.qy = (i - 5.5)*1., (j - 5.5)*1.
    p.cell_type = np.zeros((12, 12), int)
    p.cell_type[1], p.cell_type[-2] = 2, 2
    p.cell_type[:, 1], p.cell_type[:, -2] = 2, 2
    P = pt.Particles(p)
    wd = pr.parallel_routing(P, 130, 2, [5], [4], 2)
    demand(all(len(x) == 131 for x in wd['xinds']),
           'iterations are missing: %s' % [len(x) for x in wd['xinds']])
''')

seed('seeded-by-number', 'C12',
     'adding more than 50 particles resets the random generator',
     'more than 50 particles at once, and runs from two states',
     [(PT, "        if method == 'random':\n            # create random",
       "        if method == 'random':\n"
       "            if Np_tracer > 50:  # same clouds in all runs\n"
       "                np.random.seed(Np_tracer)\n"
       "            # create random")],
     '''
got = []
for s in (1, 2):
    np.random.seed(s)
    P = pt.Particles(slope())
    P.generate_particles(60, list(range(2, 10)), list(range(2, 10)))
    got.append(P.walk_data['xinds'])
demand(got[0] != got[1], 'different seeds give the same particles')
''')

seed('late-steps-averaged', 'C07',
     'after 40 steps, the next step is estimated from the last four',
     'a run to a target time that takes more than 40 steps, in flow whose '
     'speed varies',
     [(PT, """                        est_next_dt = max(0.1, all_times[ii][-1] -
                                          all_times[ii][-2])
                        count""",
       """                        n = 1 if len(all_times[ii]) < 40 else 4
                        est_next_dt = max(0.1, (all_times[ii][-1] -
                                          all_times[ii][-1-n])/n)
                        count""")],
     '''
for k in range(46, 52):
    p = slope(5, 80, gamma=0., diff_coeff=0., dx=100.)
    p.depth[[1, 3]] = 0.
    p.qx[:, k:] = 40.
    P = pt.Particles(p)
    P.generate_particles(1, [2], [2])
    # duration of its steps: 200 s, then 5 s
    for off in (-60., 0., 60., 110., 140., 170.):
        T = 200.*(k - 3) + off
        Q = pt.Particles(p)
        Q.generate_particles(1, [2], [2])
        t = Q.run_iteration(target_time=T)['travel_times'][0]
        for a, b in zip(t[1:], t[2:]):
            d = max(.1, a - t[t.index(a) - 1])
            demand(abs(a - T) >= abs(a + d - T) - 1e-6, 'moved on')
        d = max(.1, t[-1] - t[-2])
        demand(abs(t[-1] - T) <= abs(t[-1] + d - T) + 1e-6, 'stopped early')
''')

seed('bed-above-datum', 'C10',
     'stage from depth and topography is cut off 100 m below the datum',
     'depth with topography (no stage), of a bed deeper than 100 m below the '
     'datum',
     [(PT, "                self.stage = params.topography + params.depth",
       "                self.stage = np.maximum(params.topography, -100.) + \\\n"
       "                    params.depth")],
     '''
i, j = np.mgrid[0:12, 0:12]
w = []
for way in (0, 1):
    p = slope(gamma=1., theta=0.)
    p.stage = -400. - .5*j + .25*i
    if way:
        p.topography = p.stage - p.depth
        del p.stage
    np.random.seed(3)
    P = pt.Particles(p)
    P.generate_particles(20, [5], [5])
    for _ in range(4):
        wd = P.run_iteration()
    w.append((wd['xinds'], wd['yinds']))
demand(w[0] == w[1], 'topography and stage give different walks')
''')

seed('speed-limit', 'C32',
     'velocities above 25 are taken as 25 where a step begins',
     'flow faster than 25 (m/s, or in other units)',
     [(LW, "        old_vel = Particles.velocity[ind[0], ind[1]]",
       "        old_vel = min(Particles.velocity[ind[0], ind[1]], 25.)")],
     '''
for U in (1., 12.5, 31., 80.):
    p = pt.modelParams()
    p.verbose, p.dx, p.diff_coeff = False, 4., 0.
    p.depth, p.stage = np.ones((30, 9)), np.ones((30, 9))
    p.u, p.v = np.zeros((30, 9)), np.full((30, 9), -U)
    P = pt.Particles(p)
    P.generate_particles(5, [2], [4])
    for _ in range(8):
        wd = P.run_iteration()
    for x, t in zip(wd['xinds'], wd['travel_times']):
        demand(abs(t[-1] - (x[-1] - 2)*4./U) < 1e-4*t[-1], 'travel time')
''')

seed('cells-to-the-centimeter', 'C32',
     'the size of cells is rounded to two digits for the length of steps',
     'a cell size with more than two digits, as in degrees',
     [(LW, "    dist = distances.flat[new_cell]*float(dx)",
       "    dist = distances.flat[new_cell]*round(float(dx), 2)")],
     '''
for dx in (2., 50., .125, .0375):
    p = pt.modelParams()
    p.verbose, p.dx, p.diff_coeff = False, dx, 0.
    p.depth, p.stage = np.ones((30, 9)), np.ones((30, 9))
    p.u, p.v = np.zeros((30, 9)), np.full((30, 9), -1.)
    P = pt.Particles(p)
    P.generate_particles(5, [2], [4])
    for _ in range(8):
        wd = P.run_iteration()
    for x, t in zip(wd['xinds'], wd['travel_times']):
        demand(abs(t[-1] - (x[-1] - 2)*dx) < 1e-4*t[-1], 'travel time')
''')

WARNED = '''
def warned(**kw):
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter('always')
        t = kw.pop('seed_time', 0)
        p = slope(**kw)
        p.verbose = None
        P = pt.Particles(p)
        P.generate_particles(3, [5], [5], seed_time=t)
    return [str(w.message) for w in W if w.category is UserWarning]


'''

seed('warned-beyond-two', 'C33',
     'a diffusion coefficient of exactly 2 gives no warning',
     'diff_coeff exactly 2',
     [(PT, "            elif params.diff_coeff >= 2:",
       "            elif params.diff_coeff > 2:")],
     WARNED + '''
for d in (-1., 0., .2, 1.99, 2., 2, 3.):
    demand(len(warned(diff_coeff=d)) == (d < 0 or d >= 2),
           'warnings of a coefficient of %s' % d)
''')

seed('seeded-in-the-past', 'C33',
     'seed times before 0 give no warning',
     'a negative seed time',
     [(PT, "        if (seed_time != 0) and (self.verbose is True):",
       "        if (seed_time > 0) and (self.verbose is True):")],
     WARNED + '''
for t in (0, 0., 1, 3600., -5., -1):
    demand(len(warned(seed_time=t)) == (t != 0),
           'warnings of a seed time of %s' % t)
''')

seed('recent-past-only', 'C29',
     'of earlier walk data, only the last 1500 rows are taken over',
     'walk data with particles of over 1500 entries',
     [(PT, "            prev_xinds = previous_walk_data['xinds']",
       "            prev_xinds = [x[-1500:] for x in "
       "previous_walk_data['xinds']]")],
     '''
P = pt.Particles(slope())
for n in (3, 700, 1499, 1501, 4000):
    wd = dict(xinds=[[4, 5]*n], yinds=[[6]*(2*n)],
              travel_times=[[float(k) for k in range(2*n)]])
    P.clear_walk_data()
    P.generate_particles(0, [], [], previous_walk_data=wd)
    demand(P.walk_data['xinds'][0] == [4, 5]*n, 'rows of earlier walk data')
''')

seed('tail-never-brighter', 'C28',
     'the color at the end of tails given is made no more opaque than that '
     'at the start, in the list of the caller',
     'an end of tails more opaque than the start',
     [(RT, "    colors = np.zeros((tail_length, 4))",
       "    rgba_end[3] = min(rgba_end[3], rgba_start[3])\n"
       "    colors = np.zeros((tail_length, 4), float)")],
     '''
import tempfile, shutil
import dorado.routines as rt
P = pt.Particles(slope())
P.generate_particles(3, [5], [3])
for _ in range(6):
    wd = P.run_iteration()
d = tempfile.mkdtemp()
try:
    for a, b in (([1, .4, .2, 1], [1, .3, .1, 0]),
                 ([0, 0, 1, .3], [0, 1, 0, .9])):
        a0, b0 = list(a), list(b)
        rt.snake_plots(P.depth, wd, 2, d, interval=1, rgba_start=a,
                       rgba_end=b)
        demand(a == a0 and b == b0, 'colors given were changed')
finally:
    shutil.rmtree(d)
''')

seed('quiet-figures', 'C26',
     'with the level DEBUG the messages of matplotlib are turned off',
     'the level DEBUG, and an application that wants the messages of '
     'matplotlib',
     [(LC, "    logger.setLevel(numeric_level)",
       "    logger.setLevel(int(numeric_level))\n"
       "    if numeric_level <= logging.DEBUG:\n"
       "        logging.getLogger('matplotlib').setLevel(logging.WARNING)")],
     '''
import logging
import dorado
import matplotlib
g = logging.getLogger('matplotlib')
for mine in (logging.INFO, logging.DEBUG):
    g.setLevel(mine)
    for lv in ('INFO', 'ERROR', 'DEBUG', 'WARNING'):
        dorado.setup_logging(lv, logging.NullHandler())
        demand(g.level == mine, 'level of another library after ' + lv)
''')

seed('movie-kept', 'C30',
     'an animation that is there already is kept',
     'an animation made again in the same folder',
     [(RT, "    anim.save(folder_name+os.sep+'animation.mp4', writer=writer,",
       "    movie = folder_name+os.sep+'animation.mp4'\n"
       "    if os.path.exists(movie):\n        return\n"
       "    anim.save(movie, writer=writer,")],
     '''
import tempfile, shutil
from matplotlib import animation
import matplotlib.image as mgimg
import dorado.routines as rt
frames = []


class Writer(animation.AbstractMovieWriter):
    @classmethod
    def isAvailable(cls):
        return True

    def __init__(self, *a, **kw):
        animation.AbstractMovieWriter.__init__(self, kw.get('fps', 5))

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, 50

    def grab_frame(self, **kw):
        frames.append(1)

    def finish(self):
        open(self.outfile, 'wb').write(b'movie')


animation.writers.register('ffmpeg')(Writer)
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/figs')
    for k in range(4):
        mgimg.imsave(d + '/figs/output%d.png' % k, np.random.random((8, 9)))
    rt.animate_plots(0, 3, d)
    demand(len(frames) == 3, 'frames')
    rt.animate_plots(0, 4, d)
    demand(len(frames) == 7, 'frames of the second animation')
finally:
    shutil.rmtree(d)
''')

FAULTS = '''
def failing(at, exc, f):
    """Call f with the at-th draw of a random number failing."""
    import numpy.random as nr
    real = {k: getattr(nr, k) for k in ('uniform', 'random')}
    n = [0]

    def wrap(g):
        def h(*a, **k):
            n[0] += 1
            if n[0] == at:
                raise exc
            return g(*a, **k)
        return h
    nr.uniform, nr.random = wrap(real['uniform']), wrap(real['random'])
    lw.random = nr.random
    try:
        f()
    except BaseException as e:
        return e
    finally:
        nr.uniform, nr.random = real['uniform'], real['random']
        lw.random = real['random']
    return None


'''

seed('tracked-at-the-end', 'C34',
     'tracked variables are added when all particles have reached the target '
     'time, so a run that fails leaves them behind the positions',
     'a failure (or Ctrl-C) in a run to a target time with tracked variables',
     [(PT, "            _iter_particles = []\n",
       "            _iter_particles = []\n            tracked = []\n"),
      (PT, "                                optional_vars[var][ii].append("
       "updated_optional[var][0])",
       "                                tracked.append((var, ii, "
       "updated_optional[var][0]))"),
      (PT, "            # write out warning if particles exceed step limit\n",
       "            for var, ii, value in tracked:\n"
       "                optional_vars[var][ii].append(value)\n\n"
       "            # write out warning if particles exceed step limit\n")],
     FAULTS + '''
P = pt.Particles(slope(30, 30, particle_variables=['depth', 'stage']))
P.generate_particles(3, [15], [3])
e = failing(12, KeyboardInterrupt('stop'),
            lambda: P.run_iteration(target_time=200.))
demand(isinstance(e, KeyboardInterrupt), 'the failure')
for v in ('depth', 'stage', 'travel_times'):
    demand([len(x) for x in P.walk_data[v]] ==
           [len(x) for x in P.walk_data['xinds']], 'alignment of ' + v)
''')

seed('broken-off-unsaid', 'C34',
     'arithmetic failures of a step end the run of that particle unsaid',
     'a failing step in a run to a target time',
     [(PT, "                        new_inds, travel_times, updated_optional = "
       "lw.particle_stepper(self, [[all_xinds[ii][-1], all_yinds[ii][-1]]],"
       "[all_times[ii][-1]],\n"
       "                                                                   "
       "                    {var: [optional_vars[var][ii][-1]] for var in "
       "optional_vars})",
       "                        try:\n"
       "                            new_inds, travel_times, updated_optional "
       "= lw.particle_stepper(\n"
       "                                self, [[all_xinds[ii][-1], "
       "all_yinds[ii][-1]]],\n"
       "                                [all_times[ii][-1]],\n"
       "                                {var: [optional_vars[var][ii][-1]] "
       "for var in optional_vars})\n"
       "                        except (ArithmeticError, ValueError):\n"
       "                            break")],
     FAULTS + '''
P = pt.Particles(slope(30, 30))
P.generate_particles(3, [15], [3])
x = FloatingPointError('overflow')
e = failing(12, x, lambda: P.run_iteration(target_time=200.))
demand(e is x, 'the failure: %r' % e)
''')

seed('seeding-takes-out', 'C34',
     'the histories are taken out of the object while more are seeded, and '
     'lost if the seeding fails',
     'a failure in seeding more particles at random',
     [(PT, "        if method == 'random':\n"
       "            # create random start indices based on x, y locations and "
       "np_tracer\n",
       "        walk_data, self.walk_data = self.walk_data, None\n"
       "        if method == 'random':\n"
       "            # create random start indices based on x, y locations and "
       "np_tracer\n"),
      (PT, "        if self.walk_data is not None:\n"
       "            # if there is walk_data from a previous call to the "
       "generator,\n",
       "        if walk_data is not None:\n"
       "            self.walk_data = walk_data\n"
       "            # if there is walk_data from a previous call to the "
       "generator,\n")],
     FAULTS + '''
P = pt.Particles(slope(30, 30))
P.generate_particles(3, [15], [3])
P.run_iteration()
n = [len(x) for x in P.walk_data['xinds']]
e = failing(3, KeyboardInterrupt(),
            lambda: P.generate_particles(4, [14, 15], [3, 4]))
demand(isinstance(e, KeyboardInterrupt), 'the failure')
demand(P.walk_data is not None and
       [len(x) for x in P.walk_data['xinds']] == n, 'histories kept')
''')

seed('worker-gives-up', 'C34',
     'a worker whose iteration fails returns what it has',
     'an iteration that fails in a worker process after the first',
     [(PR, "        all_walk = pobj.particles.run_iteration()",
       "        try:\n"
       "            all_walk = pobj.particles.run_iteration()\n"
       "        except Exception:\n"
       "            if i == 0:\n"
       "                raise\n"
       "            break")],
     '''
import dorado.parallel_routing as pr


class Odd(pt.Particles):
    n = 0

    def run_iteration(self, *a, **k):
        self.n += 1
        if self.n == 3:
            raise ValueError('third')
        return pt.Particles.run_iteration(self, *a, **k)


P = Odd(slope(30, 30))
try:
    pr.parallel_routing(P, 5, 3, [15], [3], 2)
except ValueError as e:
    demand(e.args == ('third',), 'message')
else:
    demand(False, 'the failure of a worker is not told')
''')

seed('figure-failed-unsaid', 'C34',
     'figures that cannot be saved are left out without an error',
     'a full or vanished disk when a figure is saved',
     [(RT, "            ax.set_title('Depth - Particle Iteration ' + str(i))\n"
       "            plt.savefig(folder_name+os.sep +\n"
       "                        'figs'+os.sep+'output'+str(i)+'.png',\n"
       "                        bbox_inches='tight')\n",
       "            ax.set_title('Depth - Particle Iteration ' + str(i))\n"
       "            try:\n"
       "                plt.savefig(folder_name+os.sep +\n"
       "                            'figs'+os.sep+'output'+str(i)+'.png',\n"
       "                            bbox_inches='tight')\n"
       "            except OSError as err:\n"
       "                logger.debug('Figure not saved: %s', err)\n")],
     '''
import shutil, tempfile
import dorado.routines as rt
d = tempfile.mkdtemp()
try:
    P = pt.Particles(slope(30, 30))
    P.generate_particles(3, [15], [3])
    real, n = rt.plt.savefig, [0]

    def save(*a, **k):
        n[0] += 1
        if n[0] == 2:
            raise OSError('no room')
        return real(*a, **k)
    rt.plt.savefig = save
    try:
        rt.steady_plots(P, 3, d)
    except OSError:
        pass
    else:
        demand(False, 'the failure is not told')
finally:
    shutil.rmtree(d)
''')

seed('slopes-by-the-steepest', 'C35',
     'slopes under a thousandth of the steepest in the domain count as none',
     'a drop or fall in one part of the domain, gentle slopes in another',
     [(LW, "    weight_sfc[weight_sfc <= 0] = 0\n",
       "    weight_sfc[weight_sfc <= 1e-3*np.nanmax(weight_sfc)] = 0\n")],
     '''
def path(fall):
    i, j = np.mgrid[0:20, 0:40]
    stage = 10. - .01*j - .002*i
    stage[:, 36:] -= fall
    p = params(np.ones((20, 40))*2., stage, np.zeros((20, 40)),
               np.zeros((20, 40)), gamma=1., theta=0.)
    P = pt.Particles(p)
    np.random.seed(3)
    P.generate_particles(20, [10], [5])
    for _ in range(8):
        P.run_iteration()
    return P.walk_data['xinds'], P.walk_data['yinds']


demand(path(0.) == path(50.), 'walks far from the fall')
''')

seed('slopes-by-the-datum', 'C35',
     'differences in stage under a millionth of the stage count as none',
     'a domain high above the datum',
     [(LW, "    weight_sfc[weight_sfc <= 0] = 0\n",
       "    weight_sfc[weight_sfc <= 1e-6*np.abs("
       "tile_domain_array(Particles.stage))] = 0\n")],
     '''
def path(datum):
    i, j = np.mgrid[0:20, 0:40]
    stage = datum + 10. - j/1024. - i/4096.
    p = params(np.ones((20, 40))*2., stage, np.zeros((20, 40)),
               np.zeros((20, 40)), gamma=1., theta=0.)
    P = pt.Particles(p)
    np.random.seed(3)
    P.generate_particles(20, [10], [5])
    for _ in range(8):
        P.run_iteration()
    return P.walk_data['xinds'], P.walk_data['yinds']


demand(path(0.) == path(2048.), 'walks with another datum')
''')

seed('calm-by-the-fastest', 'C35',
     'flow slower than a thousandth of the fastest counts as that',
     'a jet in one part of the domain, calm water in another',
     [(PT, "        self.velocity[self.velocity < 1e-8] = 1e-8\n",
       "        self.velocity = np.maximum(self.velocity,\n"
       "                                   max(1e-8, 1e-3*np.nanmax("
       "self.velocity)))\n")],
     '''
def times(jet):
    q = np.ones((20, 40))*.01
    q[:, 36:] *= jet
    i, j = np.mgrid[0:20, 0:40]
    P = pt.Particles(params(np.ones((20, 40)), 10. - .01*j, q, 0.*q))
    np.random.seed(3)
    P.generate_particles(20, [10], [5])
    for _ in range(8):
        P.run_iteration()
    return P.walk_data['travel_times']


demand(times(1.) == times(5e3), 'times far from the jet')
''')
