"""C04: steepest descent."""
import numpy as np
from vlib import gen, walk, stats
from vlib.boot import pt
from vlib.ref import Ref, OFF

N = {'quick': 28000, 'thorough': 490000}
RULE = ('random domains with steepest descent routing; every move, and every '
        'iteration without a move, is compared with the highest documented '
        'weight; domains with mirror symmetry give exact ties, for which '
        'the choice has to be even (p < 1e-12). Non-trivial: cases with '
        'moves; distinct by domain and path.')
MIN = {'moves': 5000, 'stays': 100, 'ties': 20, 'ties_of_many': 100, 'no_weight_moves': 100,
       'revisits': 200}
ASSUMPTIONS = ['cells where rounding decides the documented weights are '
               'left out']


def tie_case(c):
    """Mirror images: flow along the row axis, all else even."""
    rng = c.rng
    L = int(rng.integers(5, 10))
    h = int(rng.integers(2, 5))
    W = 2*h + 1
    sc = gen.scenario(rng, shape=(L, W), depth='wet', stage='noise',
                      flow='zero', cell_type=False, steepest=True, nan=False,
                      near=False, modes=['depth_stage'], f32=False,
                      model='DeltaRCM')
    d = sc.arrays['depth']
    d[:, h + 1:] = d[:, :h][:, ::-1]
    # the middle is shallow, but wet, and high: left and right win
    s = sc.arrays['stage']
    s[:] = 10.
    s[:, h] = 11.
    d[:, h] = .2 + .1*(sc.options.get('dry_depth', .1) > .15)*10
    a, b = ('qx', 'qy') if 'qx' in sc.arrays else ('u', 'v')
    sc.arrays[a][:], sc.arrays[b][:] = 0., 0.
    sc.options['gamma'] = 1.
    i = int(rng.integers(2, L - 2))
    many = rng.random() < .5
    if many:    # more than two: four equal slopes, or nowhere deeper
        d[:] = 2.
        s[:] = 10.
        if rng.random() < .5:
            s[i, h] = 11.
        else:
            sc.options['gamma'] = float(rng.random())
        for _ in range(int(rng.integers(0, 4))):
            m, q = int(rng.integers(-1, 2)), int(rng.integers(-1, 2))
            if (m, q) != (0, 0):
                d[i + m, h + q] = 0.
    ref = Ref(sc)
    c.desc = sc.describe()
    best = ref.argmax(i, h)
    if best is None or len(best) < 2:
        return
    n = 400
    P = pt.Particles(sc.params())
    P.generate_particles(n, [i], [h], method='exact')
    wd = P.run_iteration()
    obs = np.zeros(9, int)
    for x, y in zip(wd['xinds'], wd['yinds']):
        k = ref.move_of((i, h), (x[-1], y[-1]))
        c.check(k in best, 'steepest descent to a cell that is not highest',
                move=k, best=sorted(best))
        obs[k] += 1
    for k in best:
        pv = stats.binomial_p(obs[k], n, 1./len(best))
        c.check(pv > 1e-12, 'ties are not broken evenly', observed=obs,
                best=sorted(best), p_value=pv)
    c.count('ties')
    if len(best) > 2:
        c.count('ties_of_many')
    c.sig('tie', sc.shape, i, obs)


def case(c):
    rng = c.rng
    if c.idx % 8 == 7:
        return tie_case(c)
    if c.idx % 50 == 49:
        sc = gen.example(rng)
        sc.options['steepest_descent'] = True
    else:
        sc = gen.scenario(rng, lo=5, steepest=True)
        if 'cell_type' in sc.options and rng.random() < .7:
            ct = sc.options['cell_type']
            ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    n = gen.size(rng, 1, 14, 300, .01)
    xs, ys = gen.seed_cells(rng, sc, n, ['any', 'inner', 'wet'][
        int(rng.integers(3))], ref)
    P.generate_particles(n, xs, ys, method='exact')
    seen = set()
    moved = 0
    for it in range(gen.size(rng, 3, 24, 400, .01)):
        before = walk.lens(P.walk_data)
        pos = [(x[-1], y[-1]) for x, y in zip(P.walk_data['xinds'],
                                              P.walk_data['yinds'])]
        wd = P.run_iteration()
        for p, a in enumerate(pos):
            b = (wd['xinds'][p][-1], wd['yinds'][p][-1])
            if ref.frozen(*a):
                continue
            best = ref.argmax(*a)
            if best is None:
                c.count('not_judged')
                continue
            k = ref.move_of(a, b)
            c.check(k in best, 'steepest descent did not go to the highest '
                    'weight', particle=p, iteration=it, from_=a, to=b,
                    best=[OFF[q] for q in sorted(best)],
                    weights=ref.weights(*a)[0][0])
            c.check((len(wd['xinds'][p]) > before[p]) == (k != 4),
                    'history and move do not agree', particle=p)
            if k == 4:
                c.count('stays')
            else:
                c.count('moves')
                moved += 1
            if ref.weights(*a)[0][1]:
                c.count('no_weight_moves')
            if a in seen:
                c.count('revisits')
            seen.add(a)
    if moved:
        c.sig(sc.kind, sc.shape, P.walk_data['xinds'], P.walk_data['yinds'])
        c.sample(dict(kind=sc.kind, path=list(zip(P.walk_data['xinds'][0],
                                                  P.walk_data['yinds'][0]))))
