"""C12: reproducibility from the state of numpy's random generator."""
import json
import os
import random
import subprocess
import sys
import warnings
import logging
import numpy as np
from vlib import boot, gen, walk
from vlib.boot import pt, dorado
from vlib.ref import Ref
from checks.c11 import drive, make_ops

N = {'quick': 2000, 'thorough': 40000}
RULE = ('random domains and operations, done twice from the same random '
        'state with other verbosity, logging, tracked variables, and state '
        'of the random module, or (every 40th case) in fresh processes with '
        'other hash seeds; then with other seeds, and in succession. '
        'Non-trivial: cases in which particles had choices; distinct by '
        'walk.')
MIN = {'repeats': 1000, 'processes': 10, 'successive': 150,
       'other_seeds': 150}
ASSUMPTIONS = ['runs from different seeds are compared only where all-equal '
               'walks have a chance under 1e-12']

CHILD = '''
import sys, json
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from vlib import boot, walk
from checks import c12
idx, seed, tier, s = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], \\
    int(sys.argv[4])
from vlib.core import Ctx
c = Ctx('C12', tier, seed, idx)
sc, ref, ops = c12.setup(c)
import numpy as np
np.random.seed(s)
P = boot.pt.Particles(sc.params())
c12.drive(P, ops, np.random.get_state())
print('RESULT ' + json.dumps(P.walk_data, default=float))
'''


def setup(c):
    rng = c.rng
    busy = rng.random() < .5
    sc, ref = domain(rng, busy)
    if not busy:
        return sc, ref, make_ops(rng, sc, ref)
    n = gen.size(rng, 10, 29, 400, .05)
    xs, ys = gen.seed_cells(rng, sc, 8, 'inner')
    ops = [('gen', n, xs, ys, ['exact', 'random'][int(rng.integers(2))],
            [0, 0, 2.5][int(rng.integers(3))])]
    ops += [('step',)]*gen.size(rng, 4, 9, 200, .02)
    ops.append(('target', 10*ref.dx, 8))
    return sc, ref, ops


def domain(rng, busy):
    """A domain; in a busy one, particles have choices at every step."""
    if busy:
        sc = gen.scenario(rng, lo=12, hi=24, depth='wet', near=False,
                          nan=False, cell_type=False, steepest=False,
                          flow=['zero', 'noise', 'noise', 'vortex'][
                              int(rng.integers(4))],
                          stage=['noise', 'slope_noise', 'slope'][
                              int(rng.integers(3))],
                          gamma=[.3, .5, .9][int(rng.integers(3))],
                          theta=[0., 1.][int(rng.integers(2))])
        sc.options['cell_type'] = np.zeros(sc.shape, int)
    else:
        sc = gen.scenario(rng, lo=5, hi=12)
    sc = gen.add_tracking(rng, sc)
    if 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    return sc, Ref(sc)


def entropy(ref, wd):
    """-log of the chance of the likeliest repetition of this walk."""
    h = 0.
    for X, Y in zip(wd['xinds'], wd['yinds']):
        for a in zip(X[:-1], Y[:-1]):
            pf, ok = ref.weights(*a)
            if ok:
                m = pf[0].max()
                if m > 0:
                    h -= np.log(m)
    return h


def case(c):
    rng = c.rng
    sc, ref, ops = setup(c)
    c.desc = dict(sc.describe(), ops=ops)
    s = int(rng.integers(2**31))

    def run(scx=None, seed=s, early=False):
        if early:       # (seeded before the object is made)
            np.random.seed(seed)
        P = pt.Particles((scx or sc).params())
        if not early:
            np.random.seed(seed)
        drive(P, ops, np.random.get_state())
        return walk.snap(P.walk_data)

    want = run()
    h = entropy(ref, want)
    keys = list(want)

    def compare(got, what, ks=keys):
        bad = walk.same_walk(want, got, ks)
        c.check(bad is None, 'not reproducible (%s): %s' % (what, bad))
        c.count('repeats')

    random.seed(int(rng.integers(1000)))
    compare(run(), 'again')
    k = int(rng.integers(4))
    if k == 0:
        log = logging.getLogger('dorado')
        lvl = log.level
        hs = list(log.handlers)
        early = bool(rng.integers(2))
        ini = run(early=True) if early else want
        try:
            v = bool(rng.integers(2))
            sc.options['verbose'] = v
            with open(os.devnull, 'w') as nul:
                dorado.setup_logging('DEBUG', logging.StreamHandler(nul))
                got = run(early=early)
            bad = walk.same_walk(ini, got, keys)
            c.check(bad is None, 'not reproducible (verbose %s): %s'
                    % (v, bad), seeded_before=early)
            c.count('repeats')
        finally:
            log.handlers[:] = hs
            log.setLevel(lvl)
            sc.options.pop('verbose', None)
    elif k == 1:
        sc2 = gen.Scenario()
        sc2.arrays, sc2.options = sc.arrays, dict(sc.options)
        sc2.options.pop('roi_grid', None)
        sc2.options['particle_variables'] = ['u', 'stage']
        compare(run(sc2), 'other tracked variables', list(walk.BASE))
    elif k == 2:
        # the generator in the state, not the seed, decides
        P = pt.Particles(sc.params())
        np.random.seed(s)
        st = np.random.get_state()
        np.random.random(17)
        drive(P, ops, st)
        compare(P.walk_data, 'from the state')
    if c.idx % 40 == 0:
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1000))),
                   VERIF_REPO=boot.REPO)
        r = subprocess.run([sys.executable, '-c', CHILD % boot.VERIF,
                            str(c.idx), str(c.seed), c.tier, str(s)],
                           env=env, capture_output=True, text=True,
                           timeout=500)
        line = [x for x in r.stdout.splitlines() if x.startswith('RESULT ')]
        c.check(r.returncode == 0 and line, 'no result in another process',
                stderr=r.stderr[-2000:])
        got = json.loads(line[-1][7:])
        compare(got, 'in another process')
        c.count('processes')
    if h > 28 and not ref.steepest:
        # other seeds, and going on without seeding
        for seed in (s + 1, s + 12345):
            other = run(seed=seed % 2**32)
            c.check(walk.same_walk(want, other, ('xinds', 'yinds')),
                    'different seeds give the same walk', seeds=(s, seed))
        c.count('other_seeds')
        P = pt.Particles(sc.params())
        np.random.seed(s)
        st = drive(P, ops, np.random.get_state())
        P2 = pt.Particles(sc.params())
        drive(P2, ops, st)
        compare(P.walk_data, 'before another')
        c.check(walk.same_walk(want, P2.walk_data, ('xinds', 'yinds')),
                'successive runs give the same walk', seed=s)
        P.clear_walk_data()
        # and by one object
        np.random.seed(s)
        drive(P, ops, np.random.get_state())
        a = walk.snap(P.walk_data)
        P.clear_walk_data()
        drive(P, ops, np.random.get_state())
        c.check(walk.same_walk(a, P.walk_data, ('xinds', 'yinds')),
                'successive runs of an object give the same walk', seed=s)
        c.count('successive')
    if h > 1:
        c.sig(want['xinds'], want['yinds'])
        c.sample(dict(kind=sc.kind, seed=s, ops=ops, entropy=h))
