"""C03: transition probabilities of the weighted random walk."""
import numpy as np
from scipy.stats import poisson
from vlib import gen, stats
from vlib.boot import pt
from vlib.core import Violation
from vlib.ref import Ref, OFF

N = {'quick': 950, 'thorough': 15000}
CHUNK = 4
RULE = ('random domains and weighting parameters; thousands of particles '
        'leave chosen cells, and crowds walk for many iterations; the '
        'observed moves are compared with the documented probabilities, '
        'per direction (exact binomial, p < 1e-12) and pooled over cells '
        '(|z| > 7.5). Non-trivial: cells with two or more possible moves; '
        'distinct by parameters and probabilities.')
MIN = {'cells_tested': 300, 'weak_flows': 30, 'moves': 300000, 'fallback_cells': 20,
       'walk_cells': 100}
ASSUMPTIONS = ['cells where rounding decides the documented weights are '
               'left out']


def judge(c, ref, cell, obs, what):
    (p, fallback), ok = ref.weights(*cell)
    n = obs.sum()
    for k in range(9):
        c.check(not (p[k] == 0 and obs[k] > 0),
                'a move that has probability 0 (%s)' % what, cell=cell,
                move=OFF[k], observed=obs, expected=p, fallback=fallback)
        pv = stats.binomial_p(obs[k], n, p[k]) if 0 < p[k] < 1 else 1.
        c.check(pv > 1e-12, 'moves are not as often as documented (%s)'
                % what, cell=cell, move=OFF[k], observed=obs, expected=p*n,
                p_value=pv, fallback=fallback, theta=ref.theta,
                gamma=ref.gamma)
    t = stats.multinomial(obs, p)
    c.count('cells_tested')
    c.count('moves', n)
    if fallback:
        c.count('fallback_cells')
    if (p > 0).sum() > 1:
        c.sig(ref.theta, ref.gamma, np.round(p, 6), int(n))
    dev = [float((obs[k] - n*p[k])) for k in range(9)]
    var = [float(n*p[k]*(1 - p[k])) for k in range(9)]
    rare = [[float(n*p[k]), int(obs[k])] if 0 < p[k] < 3e-3 else [0., 0]
            for k in range(9)]
    c.stat(t=t, rare=rare, dev=dev, var=var, fallback=bool(fallback),
           walk=what == 'walk')


def case(c):
    rng = c.rng
    walk = c.idx % 3 == 2
    if c.idx % 40 == 39:
        sc = gen.example(rng)
    else:
        sc = gen.scenario(rng, lo=5, hi=10, steepest=False,
                          cell_type=walk or None,
                          depth=['wet', 'islands', 'islands', 'bowl',
                                 'uniform', 'pits', 'channel', 'blocks'][
                                     int(rng.integers(8))])
    if 'qx' in sc.arrays and rng.random() < .15:
        f = 2.**int(rng.integers(-50, -20))
        sc.arrays['qx'] = sc.arrays['qx']*f
        sc.arrays['qy'] = sc.arrays['qy']*f
        c.count('weak_flows')
    if walk and 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    L, W = sc.shape
    cells = [(i, j) for i in range(1, L - 1) for j in range(1, W - 1)
             if not ref.frozen(i, j) and ref.weights(i, j)[1]]
    if not cells:
        return
    if walk:
        n = 250
        its = 16
        start = [cells[int(rng.integers(len(cells)))] for _ in range(n)]
        P.generate_particles(n, [s[0] for s in start], [s[1] for s in start],
                             method='exact')
        tally = {}
        for _ in range(its):
            pos = [(x[-1], y[-1]) for x, y in zip(P.walk_data['xinds'],
                                                  P.walk_data['yinds'])]
            wd = P.run_iteration()
            for p, a in enumerate(pos):
                b = (wd['xinds'][p][-1], wd['yinds'][p][-1])
                k = ref.move_of(a, b)
                if ref.frozen(*a) or not ref.weights(*a)[1]:
                    continue
                c.check(k is not None, 'not a move to an adjacent cell',
                        from_=a, to=b)
                tally.setdefault(a, np.zeros(9, int))[k] += 1
        for a, obs in tally.items():
            if obs.sum() >= 30:
                judge(c, ref, a, obs, 'walk')
                c.count('walk_cells')
        return
    # prefer cells with a choice, but not only
    score = [((ref.weights(*x)[0][0] > 0).sum() > 1) + .2 for x in cells]
    pick = rng.choice(len(cells), size=min(4, len(cells)), replace=False,
                      p=np.array(score)/sum(score))
    todo = [cells[i] for i in pick]
    todo.append(todo[0])        # again, after all the other visits
    for a in todo:
        n = 3000
        P.clear_walk_data()
        P.generate_particles(n, [a[0]], [a[1]], method='exact')
        wd = P.run_iteration()
        dx = np.array([x[-1] for x in wd['xinds']]) - a[0]
        dy = np.array([y[-1] for y in wd['yinds']]) - a[1]
        c.check(max(abs(dx).max(), abs(dy).max()) <= 1,
                'not a move to an adjacent cell', cell=a)
        c.check(len(dx) == n, 'particles missing', n=len(dx))
        obs = np.bincount((dx + 1)*3 + dy + 1, minlength=9)
        judge(c, ref, a, obs, 'crowd')
    c.sample(dict(kind=sc.kind, cell=a, theta=ref.theta, gamma=ref.gamma,
                  probabilities=ref.weights(*a)[0][0], observed=obs))


def finalize(m):
    m.extra = {}
    # moves that are hardly ever made, but are
    rare = np.sum([s['rare'] for s in m.stats], axis=0) if m.stats else \
        np.zeros((9, 2))
    m.extra['rare'] = dict(expected=rare[:, 0].round(1).tolist(),
                           observed=rare[:, 1].tolist())
    for k in range(9):
        e, o = rare[k]
        pv = 2*min(poisson.cdf(o, e), poisson.sf(o - 1, e)) if e > 0 else 1.
        if pv < 1e-12:
            raise Violation('improbable moves are not as often as documented',
                            move=OFF[k], expected=e, observed=o)
    for name, sel in (('all', lambda s: True),
                      ('fallback', lambda s: s['fallback']),
                      ('weighted', lambda s: not s['fallback']),
                      ('walk', lambda s: s['walk'])):
        pool = stats.Pool()
        dev, var = np.zeros(9), np.zeros(9)
        for s in m.stats:
            if sel(s):
                pool.add(s['t'])
                dev += s['dev']
                var += s['var']
        z = dev/np.sqrt(np.maximum(var, 1e-9))
        m.extra[name] = dict(cells=pool.n, z=float(pool.z),
                             z_by_direction=[round(float(v), 2) for v in z])
        if pool.z > 7.5:
            raise Violation('moves over all cells (%s) do not agree with the '
                            'documented probabilities' % name, z=pool.z,
                            cells=pool.n)
        big = np.abs(np.where(var > 50, z, 0))
        if big.max() > 7.5:
            raise Violation('moves in some direction are too frequent or '
                            'rare (%s)' % name, z=z.tolist(), moves=OFF)
