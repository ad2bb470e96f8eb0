"""C13: parallel routing."""
import numpy as np
from vlib import gen, walk
from vlib.boot import pt, pr
from vlib.ref import Ref
from checks.c12 import domain, entropy

N = {'quick': 1000, 'thorough': 20000}
CHUNK = 2
WORKERS = 4
RULE = ('random domains, 1 to 5 worker processes, particles and iterations; '
        'the combined result is judged as histories, for independence of '
        'the workers, and by repetition. Non-trivial: more than one worker '
        'and particles that had choices; distinct by walk.')
MIN = {'runs_apart': 20, 'runs': 150, 'particles': 3000, 'moves': 20000, 'independence': 60,
       'repeats': 60}
ASSUMPTIONS = ['workers are compared only where all-equal walks have a '
               'chance under 1e-12']


def case(c):
    rng = c.rng
    busy = rng.random() < .6
    sc, ref = domain(rng, busy)
    c.desc = sc.describe()
    P = pt.Particles(sc.params())
    cores = gen.size(rng, 1, 5, 14, .03)
    n = gen.size(rng, 1, 7, 150, .02)
    its = gen.size(rng, 1, 14, 300, .03)
    k = int(rng.integers(1, 5))
    long = busy and rng.random() < .04
    if long:    # land all around keeps them inside
        ct = sc.options['cell_type']
        ct[1], ct[-2], ct[:, 1], ct[:, -2] = 2, 2, 2, 2
        ref = Ref(sc)
        P = pt.Particles(sc.params())
        c.count('long')
    stuck = not long and rng.random() < .08
    if stuck:   # most start at an edge, where they stay
        ct = sc.options.get('cell_type')
        ct = np.zeros(sc.shape, int) if ct is None else ct.copy()
        ct[0], ct[:, 0] = -1, -1
        sc.options['cell_type'] = ct
        ref = Ref(sc)
        P = pt.Particles(sc.params())
        c.count('stuck')
    xs, ys = gen.seed_cells(rng, sc, k, 'inner' if busy else 'wet', ref)
    if long:
        xs = [int(q) for q in rng.integers(2, sc.shape[0] - 2, k)]
        ys = [int(q) for q in rng.integers(2, sc.shape[1] - 2, k)]
    if busy:
        n, its = gen.size(rng, 5, 13, 150, .02), gen.size(rng, 8, 24, 300, .03)
    if long:
        n, its = int(rng.integers(1, 4)), int(rng.integers(101, 301))
    if stuck:
        xs, ys = [0]*7 + xs[:1], [0]*7 + ys[:1]
        n, its = int(rng.integers(80, 160)), int(rng.integers(5, 30))
    had = 0
    if rng.random() < .2:
        had = int(rng.integers(1, 4))
        P.generate_particles(had, xs, ys)
    old = walk.snap(P.walk_data)
    grids = {q: np.array(getattr(P, q)) for q in ('depth', 'stage', 'qx',
                                                  'qy', 'cell_type')}
    np.random.seed(int(rng.integers(2**31)))
    s0 = np.random.get_state()
    wd = pr.parallel_routing(P, its, n, list(xs), list(ys), cores)
    c.count('runs')
    tracked = list(sc.options.get('particle_variables', []))
    if 'roi_grid' in sc.options and 'roi_flag' not in tracked:
        tracked.append('roi_flag')
    bad = walk.aligned(wd, tracked)
    c.check(bad is None, 'histories are not aligned: %s' % bad)
    c.check(len(wd['xinds']) == cores*(n + had),
            'number of particles is %d, not %d' % (len(wd['xinds']),
                                                   cores*(n + had)),
            cores=cores, Np_tracer=n)
    c.count('particles', len(wd['xinds']))
    grid = {'depth': P.depth, 'stage': P.stage, 'qx': P.qx, 'qy': P.qy,
            'u': P.u, 'v': P.v}
    for p, (X, Y) in enumerate(zip(wd['xinds'], wd['yinds'])):
        c.check(X[0] in xs and Y[0] in ys, 'a particle does not start at a '
                'seed location', particle=p, at=(X[0], Y[0]))
        if had == 0:
            c.check(wd['travel_times'][p][0] == 0, 'a particle does not '
                    'start at time 0')
        c.check(len(X) <= its + 1, 'too many entries', particle=p)
        for v in tracked:
            for j in range(len(X)):
                w = (1 if sc.options['roi_grid'][X[j], Y[j]] == 1 else 0) \
                    if v == 'roi_flag' else grid[v][X[j], Y[j]]
                c.check(walk.same(float(wd[v][p][j]), float(w)),
                        'a tracked variable is wrong', variable=v,
                        particle=p, entry=j)
        # it stopped early only at an edge, or at a standstill
        a = (X[-1], Y[-1])
        if len(X) < its + 1 and not ref.frozen(*a):
            pf, ok = ref.weights(*a)
            if ok:
                c.check(any(ref.weights(*b)[0] is None or
                            ref.weights(*b)[0][0][4] > 0
                            for b in zip(X, Y)),
                        'a particle took %d of %d iterations'
                        % (len(X) - 1, its), particle=p)
    for p, j, a, b, t0, t1 in walk.new_moves([1]*len(wd['xinds']), wd):
        mv = ref.move_of(a, b)
        c.check(mv is not None and mv != 4 and not ref.frozen(*a),
                'not a legal move', particle=p, from_=a, to=b)
        c.check(t1 >= t0, 'time decreased', particle=p)
        pf, ok = ref.weights(*a)
        if ok:
            c.check(pf[0][mv] > 0, 'not a legal move', particle=p, from_=a,
                    to=b)
        c.count('moves')
    # the object passed in
    c.check((old is None and P.walk_data is None) or
            walk.same_walk(old, P.walk_data) is None,
            'the particles of the object passed in changed')
    for q, a in grids.items():
        c.check(np.array_equal(a, getattr(P, q), equal_nan=True),
                'a grid of the object passed in changed', name=q)
    # independence of the workers: no two blocks alike
    m = n + had
    blocks = [{q: wd[q][i*m + had:(i + 1)*m] for q in wd}
              for i in range(cores)]
    hs = [entropy(ref, b) for b in blocks]
    if cores > 1 and not ref.steepest and min(hs) > 28:
        for i in range(cores):
            for j in range(i):
                c.check(walk.same_walk(blocks[i], blocks[j],
                                       ('xinds', 'yinds')) is not None,
                        'two workers routed the same particles',
                        workers=(i, j))
        c.count('independence')
    elif cores > 1 and ref.diff > 0 and had == 0:
        # dispersion differs too
        t = [b['travel_times'] for b in blocks]
        if all(sum(len(x) - 1 for x in q) >= 3 and max(
                x[-1] for x in q) > 0 for q in t) and not ref.steepest:
            c.count('times_compared')
            for i in range(cores):
                for j in range(i):
                    c.check(t[i] != t[j], 'two workers drew the same '
                            'dispersion', workers=(i, j))
    if rng.random() < .5:
        np.random.set_state(s0)
        P2 = pt.Particles(sc.params())
        if had:
            P2.generate_particles(0, [], [], previous_walk_data=walk.snap(
                old))
        again = pr.parallel_routing(P2, its, n, list(xs), list(ys), cores)
        bad = walk.same_walk(wd, again)
        c.check(bad is None, 'not reproducible: %s' % bad, cores=cores)
        c.count('repeats')
    if min(hs) > 28 and not ref.steepest and had == 0:
        # going on from here, and from another state
        for k in (None, int(rng.integers(2**31)))[:1 + c.idx % 2]:
            if k is not None:
                np.random.seed(k)
            P3 = pt.Particles(sc.params())
            more = pr.parallel_routing(P3, its, n, list(xs), list(ys), cores)
            c.check(walk.same_walk(wd, more, ('xinds', 'yinds')) is not None,
                    'two runs routed the same particles', seed=k)
        c.count('runs_apart')
    if cores > 1 and max(hs) > 1:
        c.sig(cores, wd['xinds'], wd['yinds'])
        c.sample(dict(cores=cores, Np_tracer=n, num_iter=its, kind=sc.kind,
                      entropy=hs))
