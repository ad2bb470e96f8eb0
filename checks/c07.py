"""C07: runs to a target time stop at the nearest estimated time."""
import re
import warnings
from fractions import Fraction
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 36000, 'thorough': 400000}
RULE = ('random domains whose time steps are around, under and over the '
        '0.1 s first guess; one to four runs to target times (before, at, '
        'just after and far after the present time), with limits on '
        'iterations; from each history the stopping rule is replayed step '
        'by step. Non-trivial: runs in which particles moved; distinct by '
        'times.')
MIN = {'runs': 3000, 'steps_taken': 20000, 'stopped_by_rule': 5000,
       'stopped_by_limit': 500, 'already_past': 300, 'warnings_read': 200,
       'after_no_time_step': 100,
       'exact_ties': 300}


def tie(t, dt, target):
    """Is the target halfway, without rounding in any order?"""
    return 2*(Fraction(target) - Fraction(t)) == Fraction(dt) and \
        abs(t + dt - target) == abs(t + (dt - target)) == \
        abs(dt - (target - t)) == abs(dt + (t - target)) == abs(t - target)


def case(c):
    rng = c.rng
    sc = gen.scenario(rng, lo=5, flow=['uniform', 'uniform', 'vortex',
                                       'noise', 'axis', 'patchy'][
                                           int(rng.integers(6))])
    sc.options['dx'] = float(rng.choice([.01, .1, 1., 10., 50.]))
    if 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    now = float(rng.choice([0, 0, 0, 100., 1e6]))
    n = gen.size(rng, 1, 11, 200, .01) if c.idx % 1500 != 3 else 2
    xs, ys = gen.seed_cells(rng, sc, n, ['inner', 'wet', 'wet', 'any'][
        int(rng.integers(4))], ref)
    P.generate_particles(n, xs, ys, seed_time=now, method='exact')
    moved = 0
    unit = ref.dx/(ref.speed[ref.speed > 0].mean() if (ref.speed > 0).any()
                   else 1.)
    target = now
    for run in range(gen.size(rng, 1, 4, 40, .01)):
        if rng.random() < .25:
            for _ in range(int(rng.integers(1, 4))):
                P.run_iteration()
            c.count('with_iterations_before')
        if rng.random() < .2:
            a, b = gen.seed_cells(rng, sc, 1, 'wet', ref)
            P.generate_particles(1, a, b, seed_time=float(now),
                                 method='exact')
        r = rng.random()
        if r < .08:
            target = target
        elif r < .14:
            target = now - float(rng.uniform(0, 2))*unit
        elif r < .3:
            target += float(rng.choice([.01, .04, .05, .06, .1, .2]))
        elif r < .42:
            # just between now and after the next step
            q = P.walk_data['travel_times'][int(rng.integers(n))]
            target = q[-1] + .5*(max(.1, q[-1] - q[-2]) if len(q) > 1
                                 else .1)
        else:
            target += float(rng.uniform(0, 12))*unit
        most = [int(rng.integers(1, 6)), int(rng.integers(5, 60)),
                None][int(rng.integers(3))]
        if c.idx % 1500 == 3 and run == 0:
            # the limit that is documented for runs without one
            kw, most = {}, 10000
            target += 4e4*unit
            c.count('default_limit')
        elif most is None:
            kw, most = dict(max_iter=300), 300
        else:
            kw = dict(max_iter=most)
        before = walk.lens(P.walk_data)
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            wd = P.run_iteration(target_time=target, **kw)
        c.count('runs')
        limited = []
        unsure = False
        for p, n0 in enumerate(before):
            X, Y, T = (wd[k][p] for k in walk.BASE)
            n1 = len(T)
            if n1 - n0 >= most:
                limited.append(p)
            c.check(n1 - n0 <= most, 'more iterations than max_iter',
                    particle=p, taken=n1 - n0, max_iter=most)
            for k in range(n0 - 1, n1):
                est = max(.1, T[k] - T[k - 1]) if k > 0 else .1
                a = abs(T[k] - target)
                b = abs(T[k] + est - target)
                close = abs(a - b) <= 1e-9*(abs(T[k]) + abs(target) + est)
                go = a >= b
                if close and a == b and tie(T[k], est, target):
                    close = False
                    c.count('exact_ties')
                if k > 0 and T[k] - T[k - 1] <= 0:
                    c.count('after_no_time_step')
                if k < n1 - 1:
                    c.check(go or close, 'a particle moved on, although it '
                            'was nearer to the target time than after '
                            'another step like the last', particle=p,
                            entry=k, time=T[k], estimate=est, target=target)
                    c.count('steps_taken')
                    moved += 1
                else:
                    if not go or close:
                        c.count('stopped_by_rule')
                        if T[k] > target:
                            c.count('already_past')
                        continue
                    if n1 - n0 == most:
                        c.count('stopped_by_limit')
                        continue
                    if ref.frozen(X[k], Y[k]):
                        c.count('stopped_by_edge')
                        continue
                    pf, ok = ref.weights(X[k], Y[k])
                    if not ok or pf[0][4] > 0:
                        c.count('stopped_by_standstill')
                        continue
                    c.fail('a particle stopped before the target time',
                           particle=p, at=(X[k], Y[k]), time=T[k],
                           estimate=est, target=target, taken=n1 - n0,
                           max_iter=most)
        texts = [str(w.message) for w in got
                 if issubclass(w.category, UserWarning)
                 and 'iteration limit' in str(w.message)]
        if limited:
            c.check(len(texts) == 1, 'no warning of the iteration limit',
                    particles=limited, warnings=[str(w.message)
                                                 for w in got])
            m = re.findall(r'\[([\d, ]*)\]', texts[0])
            c.check(m and [int(v) for v in m[-1].split(',')] == limited,
                    'the warning does not name the particles which used all '
                    'iterations', particles=limited, text=texts[0])
            c.count('warnings_read')
        else:
            c.check(not texts, 'warning of the iteration limit without '
                    'cause', text=texts)
        now = max(now, target)
    if moved:
        c.sig(sc.kind, target, P.walk_data['travel_times'])
        c.sample(dict(kind=sc.kind, target=target, max_iter=most,
                      times=P.walk_data['travel_times'][0][-6:]))
