"""C09: extra variables are tracked along the walks."""
import numpy as np
from vlib import gen, walk
from vlib.boot import pt
from vlib.core import Violation
from vlib.ref import Ref

N = {'quick': 30000, 'thorough': 350000}
RULE = ('random domains, random sets of tracked variables, regions of '
        'interest and sequences of operations, also over changes of flow and '
        'with histories that lack the variables; every entry appended is '
        'compared with the grid in use, and every earlier one with what it '
        'was. Non-trivial: entries compared; distinct by variables and '
        'values.')
MIN = {'values_compared': 20000, 'roi_flags': 3000, 'unknown_kept': 200,
       'op_flow': 200, 'errors': 100}


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4))
    if 'cell_type' in sc.options and rng.random() < .7:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    if 'roi_grid' in sc.options and rng.random() < .15:
        # regions are ones, whatever else there is
        sc.options['roi_grid'] = sc.options['roi_grid']*1 + rng.choice(
            [0, 0, 2, 256, -1, .5], size=sc.shape)
    c.desc = sc.describe()
    if c.idx % 20 == 19:
        return errors(c, sc)
    state = {}
    compared = [0]

    def expected_vars(sc):
        v = list(sc.options.get('particle_variables', []))
        if 'roi_grid' in sc.options and 'roi_flag' not in v:
            v.append('roi_flag')
        return v

    def start(sc, prev=None, n=0):
        gen.decoy(rng, sc, .1)
        P = pt.Particles(sc.params())
        ref = Ref(sc)
        state.update(sc=sc, P=P, ref=ref, vars=expected_vars(sc))
        # the grids tracked are those of this object; they are judged too
        g = {'depth': P.depth, 'stage': P.stage, 'qx': P.qx, 'qy': P.qy,
             'u': P.u, 'v': P.v}
        state['grids'] = {k: np.array(a, dtype=float).copy()
                          for k, a in g.items()}
        c.check(np.allclose(state['grids']['depth'], ref.depth, rtol=1e-6),
                'the depth in use is not that given')
        old = walk.snap(prev)
        xs, ys = gen.seed_cells(rng, sc, max(n, 1), 'any', ref)
        kw = {'previous_walk_data': prev} if prev is not None else {}
        P.generate_particles(n, xs, ys, method='exact', **kw)
        judge(P.walk_data, old)

    def judge(wd, old):
        """Everything in old is kept, everything else is from the grids."""
        known = walk.lens(old)
        for v in state['vars']:
            c.check(v in wd, 'a tracked variable is not in the walk data',
                    variable=v)
            c.check(len(wd[v]) == len(wd['xinds']), 'number of particles',
                    variable=v)
            for p in range(len(wd['xinds'])):
                X, Y = wd['xinds'][p], wd['yinds'][p]
                vals = wd[v][p]
                c.check(len(vals) == len(X), 'a tracked variable has %d '
                        'entries for %d positions' % (len(vals), len(X)),
                        variable=v, particle=p)
                n0 = known[p] if p < len(known) else 0
                for k in range(len(X)):
                    if k < n0:
                        want = old[v][p][k] if v in old else None
                        c.check(walk.same(vals[k], want), 'an earlier value '
                                'of a tracked variable changed', variable=v,
                                particle=p, entry=k, value=vals[k],
                                was=want)
                        if want is None:
                            c.count('unknown_kept')
                    elif v == 'roi_flag':
                        want = 1 if state['sc'].options['roi_grid'][
                            X[k], Y[k]] == 1 else 0
                        c.check(vals[k] == want, 'roi_flag is wrong',
                                particle=p, entry=k, at=(X[k], Y[k]),
                                value=vals[k])
                        c.count('roi_flags')
                    else:
                        want = state['grids'][v][X[k], Y[k]]
                        c.check(vals[k] is not None and
                                walk.same(float(vals[k]), float(want)),
                                'a tracked variable is not that of the grid '
                                'at the position', variable=v, particle=p,
                                entry=k, at=(X[k], Y[k]), value=vals[k],
                                grid=want)
                        c.count('values_compared')
                        compared[0] += 1

    start(sc, n=gen.size(rng, 1, 7, 200, .01))
    clock = 0.
    for _ in range(gen.size(rng, 2, 8, 80, .01)):
        P, ref = state['P'], state['ref']
        old = walk.snap(P.walk_data)
        r = rng.random()
        if r < .4:
            wd = P.run_iteration()
            judge(wd, old)
            judge(P.walk_data, old)
        elif r < .6:
            clock += float(rng.uniform(0, 8))*ref.dx/(ref.speed.mean()
                                                      + 1e-3)
            wd = P.run_iteration(target_time=clock,
                                 max_iter=gen.size(rng, 1, 24, 400,
                                                   .01))
            judge(wd, old)
            judge(P.walk_data, old)
        elif r < .8:
            n = int(rng.integers(0, 4))
            xs, ys = gen.seed_cells(rng, state['sc'], max(n, 1), 'any')
            P.generate_particles(n, xs, ys, method=['exact', 'random'][
                int(rng.integers(2))])
            judge(P.walk_data, old)
        else:
            # on to another flow, with the same or other variables
            nxt = gen.scenario(rng, shape=sc.shape)
            if rng.random() < .6:
                for k in ('particle_variables', 'roi_grid'):
                    if k in state['sc'].options:
                        nxt.options[k] = state['sc'].options[k]
            else:
                gen.add_tracking(rng, nxt)
            prev = walk.snap(old)
            if rng.random() < .3:
                prev = {k: prev[k] for k in walk.BASE}
            start(nxt, prev, n=int(rng.integers(0, 3)))
            c.count('op_flow')
    if compared[0]:
        c.sig(state['vars'], compared[0], P.walk_data['xinds'])
        c.sample(dict(variables=state['vars'], entries=compared[0],
                      walk={k: v[0][:6] for k, v in P.walk_data.items()
                            if v}))


def errors(c, sc):
    """Unknown variables, and regions that do not fit, are refused."""
    rng = c.rng
    L, W = sc.shape
    k = int(rng.integers(3))
    if k == 0:
        sc.options['particle_variables'] = ['depth', 'salinity']
        P = pt.Particles(sc.params())
        try:
            P.generate_particles(2, [1], [1])
        except ValueError:
            c.check(P.walk_data is None, 'particles despite the error')
        else:
            c.fail('an unknown variable was accepted')
    elif k == 1:
        sc.options.pop('roi_grid', None)
        sc.options['particle_variables'] = ['roi_flag']
        P = pt.Particles(sc.params())
        try:
            P.generate_particles(2, [1], [1])
        except ValueError:
            pass
        else:
            c.fail('roi_flag without a region was accepted')
    else:
        shape = [(W, L + 1), (L + 1, W), (L - 1, W), (L*W,)][
            int(rng.integers(4))]
        sc.options['roi_grid'] = np.ones(shape, int)
        try:
            pt.Particles(sc.params())
        except ValueError:
            pass
        else:
            c.fail('a region of another shape was accepted', shape=shape,
                   grid=sc.shape)
    c.check(True, '')
    c.count('errors')
