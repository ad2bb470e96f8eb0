"""C01: particles stay in the domain, move to adjacent cells, stop at edges."""
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 24000, 'thorough': 420000}
RULE = ('random domains (with default and arbitrary cell types), particles '
        'seeded anywhere including the border, random sequences of '
        'iterations, runs to target times, added particles and changes of '
        'flow; every appended position is judged. Non-trivial: a case in '
        'which particles moved; distinct by domain and final positions.')
MIN = {'moves': 2000, 'frozen_held': 500, 'border_held': 100,
       'edge_stops': 50}


def case(c):
    rng = c.rng
    if c.idx % 50 == 49:
        sc = gen.example(rng)
        n_ops, most = 4, 60
        if rng.random() < .5:
            sc.options['steepest_descent'] = True
    elif c.idx % 300 == 7:
        shape = (int(rng.integers(4, 6)), int(rng.integers(50000, 70000)))
        sc = gen.scenario(rng, shape=shape[::1 - 2*int(rng.integers(2))],
                          depth='wet')
        n_ops, most = 2, 10
        c.count('very_long')
    else:
        sc = gen.scenario(rng, lo=2 if rng.random() < .1 else 3)
        n_ops, most = int(rng.integers(2, 9)), 40
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    L, W = sc.shape
    total = [0]

    def reflow():
        return gen.scenario(rng, shape=sc.shape)

    def on_op(kind, P, ref, before, wd):
        now = walk.lens(wd)
        for p, k, a, b, t0, t1 in walk.new_moves(before, wd):
            total[0] += 1
            c.check(0 <= b[0] < L and 0 <= b[1] < W,
                    'position outside of the domain', particle=p, entry=k,
                    from_=a, to=b, op=kind)
            c.check(max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= 1,
                    'move to a cell that is not adjacent', particle=p,
                    entry=k, from_=a, to=b, op=kind)
            c.check(not ref.frozen(*a),
                    'a particle at an edge or border moved on', particle=p,
                    entry=k, from_=a, to=b, op=kind, at_edge=ref.at_edge(*a))
            if ref.at_edge(*b):
                c.count('edge_stops')
        for p in range(min(len(before), len(now))):
            x = (wd['xinds'][p][before[p] - 1], wd['yinds'][p][before[p] - 1])
            if kind in ('step', 'target') and ref.frozen(*x):
                c.check(now[p] == before[p],
                        'history of a particle at an edge or border grew',
                        particle=p, at=x, op=kind)
                c.count('frozen_held')
                if ref.on_border(*x):
                    c.count('border_held')

    P, ref = walk.driven(c, sc, P, ref, on_op, n_ops,
                         where=('any', 'border', 'inner', 'inner', 'wet'),
                         reflow=reflow, max_iter=most)
    c.count('moves', total[0])
    if total[0]:
        c.sig(sc.kind, sc.shape, [x[-1] for x in P.walk_data['xinds']],
              [y[-1] for y in P.walk_data['yinds']])
        c.sample(dict(kind=sc.kind, shape=sc.shape, moves=total[0],
                      particles=len(P.walk_data['xinds'])))
