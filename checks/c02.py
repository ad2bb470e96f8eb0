"""C02: from a wet cell that is not land, never into a dry or land cell."""
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 32000, 'thorough': 560000}
RULE = ('random domains with islands, channels, pits, land in wet places, '
        'missing values and depths at the limit; random and steepest '
        'routing; every appended move out of a wet cell is judged. '
        'Non-trivial: a case with such moves next to a dry or land cell; '
        'distinct by domain and number of moves.')
MIN = {'moves_from_open': 2000, 'moves_beside_dry_or_land': 500,
       'beside_land_that_is_wet': 50, 'beside_limit': 20,
       'dead_ends': 100, 'steepest_moves': 100}


def case(c):
    rng = c.rng
    if c.idx % 50 == 49:
        sc = gen.example(rng)
    else:
        sc = gen.scenario(rng, depth=['islands', 'islands', 'channel', 'pits',
                                      'checker', 'bowl', 'blocks', 'wet'][
                                          int(rng.integers(8))],
                          cell_type=True if rng.random() < .5 else None)
        if 'cell_type' in sc.options and rng.random() < .7:
            # fewer edges, so that walks go on
            ct = sc.options['cell_type']
            ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    total = [0]

    def on_op(kind, P, ref, before, wd):
        for p, k, a, b, t0, t1 in walk.new_moves(before, wd):
            if not ref.is_open(*a):
                continue
            c.check(0 <= b[0] < sc.shape[0] and 0 <= b[1] < sc.shape[1] and
                    ref.depth[b] > ref.dry,
                    'moved from a wet cell into a dry one', particle=p,
                    entry=k, from_=a, to=b, depth=ref.depth[b],
                    dry_depth=ref.dry)
            c.check(ref.ct[b] != 2, 'moved from a wet cell into land',
                    particle=p, entry=k, from_=a, to=b)
            c.count('moves_from_open')
            i, j = a
            d = ref.depth[i-1:i+2, j-1:j+2]
            ct = ref.ct[i-1:i+2, j-1:j+2]
            if ((d <= ref.dry) | (ct == 2)).any():
                c.count('moves_beside_dry_or_land')
                total[0] += 1
            if ((d > ref.dry) & (ct == 2)).any():
                c.count('beside_land_that_is_wet')
            if ((d > ref.dry*.95) & (d <= ref.dry)).any():
                c.count('beside_limit')
            pf, ok = ref.weights(i, j)
            if ok and pf[1]:
                c.count('dead_ends')
            if ref.steepest:
                c.count('steepest_moves')

    def reflow():
        return gen.scenario(rng, shape=sc.shape)

    # (the unsteady runs are in C01 and C24; here the flow may change too)
    P, ref = walk.driven(c, sc, P, ref, on_op, int(rng.integers(2, 9)),
                         where=('wet', 'wet', 'any'), reflow=reflow)
    if total[0]:
        c.sig(sc.kind, sc.shape, total[0],
              [x[-1] for x in P.walk_data['xinds']])
        c.sample(dict(kind=sc.kind, shape=sc.shape, moves=total[0]))
