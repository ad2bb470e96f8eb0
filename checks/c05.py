"""C05: travel times."""
import math
import numpy as np
from vlib import gen, walk
from vlib.boot import pt
from vlib.core import Violation
from vlib.ref import Ref, LEN

N = {'quick': 36000, 'thorough': 630000}
RULE = ('random domains, dispersion coefficients 0 to 2 (and negative, or '
        'not given), random and steepest routing, iterations and target '
        'times; each time gained is compared with distance along the flow '
        'times the mean inverse speed, and the dispersion is tested for its '
        'range, uniformity (20 bins, |z| > 7.5), mean and independence. '
        'Non-trivial: moves with a time gained; distinct by domain and '
        'times.')
MIN = {'moves': 5000, 'moves_without_dispersion': 1000,
       'moves_with_dispersion': 3000, 'backward_moves': 300,
       'stagnant_moves': 100}
ASSUMPTIONS = ['times in (nearly) stagnant water are only bounded, as the '
               'direction of flow is not defined there']


def case(c):
    rng = c.rng
    if c.idx % 50 == 49:
        sc = gen.example(rng, 'anuga')
        if rng.random() < .5:
            sc.options['diff_coeff'] = 0.
    else:
        sc = gen.scenario(rng, lo=5, cell_type=None, diff=None,
                          flow=gen.FLOWS[c.idx % len(gen.FLOWS)])
        if rng.random() < .05:
            sc.options['diff_coeff'] = -.5
        if 'cell_type' in sc.options and rng.random() < .7:
            ct = sc.options['cell_type']
            ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    dc = ref.diff
    hist = np.zeros(20, int)
    lag = dict(n=0, xy=0., n2=0, xy2=0.)
    last = {}
    prev_in_op = [None]
    done = [0]

    def on_op(kind, P, ref, before, wd):
        prev_in_op[0] = None
        for p, k, a, b, t0, t1 in walk.new_moves(before, wd):
            g = t1 - t0
            c.check(math.isfinite(t1), 'time is not finite', particle=p,
                    entry=k, from_=a, to=b, time=t1)
            c.check(g >= 0, 'time decreased', particle=p, entry=k, from_=a,
                    to=b, times=(t0, t1))
            mv = ref.move_of(a, b)
            c.check(mv is not None and mv != 4, 'not a move', from_=a, to=b)
            rnd = 4e-16*(abs(t0) + abs(t1))
            bt = ref.base_time(a[0], a[1], mv)
            c.count('moves')
            if bt is None:
                vmin = max(1e-8, min(ref.speed[a], ref.speed[b]))
                # (the speed may be a little under the given one)
                top = LEN[mv]*ref.dx/max(1e-8, .5*vmin)*(1 + dc/2)*1.001
                if min(ref.depth[a], ref.depth[b]) < 1e-3:
                    top = LEN[mv]*ref.dx*1e8*(1 + dc/2)*1.001
                c.check(g <= top + rnd, 'time gained is more than any speed '
                        'here explains', particle=p, entry=k, from_=a, to=b,
                        gained=g, most=top)
                c.count('stagnant_moves')
                continue
            base, rel, tol = bt
            err = base*rel + tol + rnd
            if dc == 0:
                c.check(abs(g - base) <= err, 'time gained is not distance '
                        'along the flow times the mean inverse speed',
                        particle=p, entry=k, from_=a, to=b, gained=g,
                        expected=base, tolerance=err)
                c.count('moves_without_dispersion')
            else:
                c.check(base*(1 - dc/2) - 2*err <= g
                        <= base*(1 + dc/2) + 2*err,
                        'time gained is out of the range of dispersion',
                        particle=p, entry=k, from_=a, to=b, gained=g,
                        without_dispersion=base, diff_coeff=dc)
                c.count('moves_with_dispersion')
                if base > 0 and 2*err/base < 2e-5*dc:
                    e = (g/base - 1)/dc
                    hist[min(19, max(0, int((e + .5)*20)))] += 1
                    if p in last:
                        lag['n'] += 1
                        lag['xy'] += e*last[p]
                    last[p] = e
                    if prev_in_op[0] is not None:
                        lag['n2'] += 1
                        lag['xy2'] += e*prev_in_op[0]
                    prev_in_op[0] = e
            if base == 0 or base <= err:
                c.count('backward_moves')
            done[0] += 1

    P, ref = walk.driven(c, sc, P, ref, on_op, int(rng.integers(2, 8)),
                         where=('inner', 'wet', 'wet'), target=.3)
    c.stat(hist=hist, **lag)
    if done[0]:
        c.sig(sc.kind, P.walk_data['travel_times'])
        c.sample(dict(kind=sc.kind, diff_coeff=dc, dx=ref.dx,
                      times=P.walk_data['travel_times'][0][:12]))


def finalize(m):
    h = sum((s['hist'] for s in m.stats), np.zeros(20))
    n = h.sum()
    m.extra = dict(dispersion_samples=int(n), histogram=h.tolist())
    if n < 2000:
        return
    x2 = ((h - n/20)**2/(n/20)).sum()
    z = (x2 - 19)/math.sqrt(38)
    mids = (np.arange(20) + .5)/20 - .5
    zm = (h*mids).sum()/n*math.sqrt(12*n)
    m.extra.update(z_uniform=z, z_mean=zm)
    if z > 7.5 or abs(zm) > 7.5:
        raise Violation('dispersion is not uniform, and centred on 0',
                        histogram=h.tolist(), z=z, z_mean=zm)
    for a, b, what in (('n', 'xy', 'of one particle'),
                       ('n2', 'xy2', 'of particles moved together')):
        k = sum(s[a] for s in m.stats)
        r = sum(s[b] for s in m.stats)
        if k > 500:
            zz = r/math.sqrt(k)*12
            m.extra['z_lag_' + b] = zz
            if abs(zz) > 7.5:
                raise Violation('dispersion %s is correlated' % what, z=zz)
