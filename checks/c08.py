"""C08: seeding of particles."""
import numpy as np
from vlib import gen, stats, walk
from vlib.boot import pt, lw
from vlib.core import Violation

N = {'quick': 10000, 'thorough': 150000}
RULE = ('random numbers of particles, lists or arrays of locations (also 2-D '
        'arrays, repeated values, floats), both methods, seed times, and '
        'calls in succession; positions are judged exactly, frequencies by '
        'binomial tests (p < 1e-12) and pooled (|z| > 7.5); invalid input '
        'has to raise the documented error and leave the particles as they '
        'were. Distinct by method, input and result.')
MIN = {'exact_particles': 3000, 'random_particles': 30000,
       'frequency_tests': 300, 'weighted_draws': 10000, 'invalid': 400, 'usable': 200,
       'refused': 50}


def forms(rng, v):
    """The same numbers in one of the forms a user may give."""
    k = int(rng.integers(6))
    if k == 0:
        return np.array(v)
    if k == 1:
        return tuple(v)
    if k == 2:
        return [float(x) for x in v]
    if k == 3 and len(v) % 2 == 0:
        a = np.array(v).reshape(2, -1)
        if rng.random() < .3:       # (however it lies in memory)
            a = np.asfortranarray(a)
        elif rng.random() < .3:
            a = np.repeat(a, 2, axis=1)[:, ::2]
        return a
    if k == 4:
        return [np.int64(x) for x in v]
    return list(v)


INVALID = [
    (dict(Np_tracer='many'), TypeError), (dict(Np_tracer=None), TypeError),
    (dict(Np_tracer=[1]), TypeError),
    (dict(seed_xloc=3), TypeError), (dict(seed_yloc=None), TypeError),
    (dict(seed_xloc=['a']), TypeError), (dict(seed_yloc=2.), TypeError),
    (dict(seed_time='0'), TypeError), (dict(seed_time=None), TypeError),
    (dict(seed_time=[0]), TypeError),
    (dict(method=3), TypeError), (dict(method=None), TypeError),
    (dict(method='exactly'), ValueError), (dict(method=''), ValueError),
    (dict(method='Random'), ValueError), (dict(method='EXACT'), ValueError),
    (dict(method='exact '), ValueError),
]


def pick_seed(c):
    """random_pick_seed with and without probabilities."""
    rng = c.rng
    n = int(rng.integers(1, 7))
    choices = [int(v) for v in rng.permutation(50)[:n]]
    kind = int(rng.integers(3))
    if kind == 0:
        probs, p = None, np.ones(n)/n
    else:
        p = rng.random(n)*(rng.random(n) < .75)
        if p.sum() == 0:
            p[int(rng.integers(n))] = 1.
        p = p*rng.choice([.1, 1., 20.])
        probs = p.copy() if kind == 1 else list(p)
        p = p/p.sum()
    arr = np.array(choices) if rng.random() < .5 else choices
    m = 1500
    got = np.zeros(n, int)
    for _ in range(m):
        v = lw.random_pick_seed(arr, probs) if probs is not None else \
            lw.random_pick_seed(arr)
        c.check(v in choices, 'picked something that is no choice',
                choices=choices, picked=v)
        got[choices.index(v)] += 1
    c.count('weighted_draws', m)
    freq(c, got, p, 'random_pick_seed', choices=choices, probs=probs)
    c.sig('pick', choices, np.round(p, 3))


def freq(c, got, p, what, **kw):
    n = got.sum()
    for k in range(len(p)):
        c.check(not (p[k] == 0 and got[k]), 'picked with probability 0 (%s)'
                % what, k=k, **kw)
        if 0 < p[k] < 1:
            pv = stats.binomial_p(got[k], n, p[k])
            c.check(pv > 1e-12, '%s is not as frequent as it should be'
                    % what, observed=got, expected=p*n, **kw)
    c.count('frequency_tests')
    c.stat(t=stats.multinomial(got, p))


def usable(c, P, when):
    """The particles there are can still be moved."""
    if P.walk_data is None or c.rng.random() < .5:
        return
    old = walk.snap(P.walk_data)
    st = np.random.get_state()
    try:
        P.run_iteration()
    except Exception as e:
        c.fail('particles cannot be moved %s' % when, error=repr(e))
    n = len(old['xinds'])
    c.check(len(P.walk_data['xinds']) == n and
            walk.same_walk(old, {k: [x[:len(old['xinds'][p])]
                                     for p, x in enumerate(P.walk_data[k])]
                                 for k in old}) is None,
            'particles were lost or changed %s' % when)
    c.count('usable')
    np.random.set_state(st)
    # (the moves are not those of this check)
    P.clear_walk_data()
    P.generate_particles(0, [], [], previous_walk_data=old)


def case(c):
    rng = c.rng
    if c.idx % 10 == 9:
        return pick_seed(c)
    sc = gen.scenario(rng, lo=5, hi=12)
    if rng.random() < .2:
        gen.add_tracking(rng, sc)
    L, W = sc.shape
    c.desc = sc.describe()
    P = pt.Particles(sc.params())
    total = 0
    for call in range(int(rng.integers(1, 4))):
        n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 40]))
        k = int(rng.integers(1, 9 if rng.random() < .8 else 60))
        method = ['random', 'exact'][int(rng.integers(2))]
        xs = [int(v) for v in rng.integers(0, L, size=k)]
        if rng.random() < .3:
            xs = xs[:1]*k
        m = k if method == 'exact' or rng.random() < .3 else \
            int(rng.integers(1, 9))
        ys = [int(v) for v in rng.integers(0, W, size=m)]
        t = [0, 0., 3, 12.5, -4., 1e6, 1600000000.25, 7.3e-5,
             -86400., -2.5e8][int(rng.integers(10))]
        big = method == 'random' and rng.random() < .25
        if big:
            n = 1500
        fx, fy = forms(rng, xs), forms(rng, ys)
        keep = (repr(fx), repr(fy))
        if rng.random() < .35:
            kw, err = INVALID[int(rng.integers(len(INVALID)))]
            args = dict(Np_tracer=n, seed_xloc=fx, seed_yloc=fy, seed_time=t,
                        method=method)
            args.update(kw)
            old = walk.snap(P.walk_data)
            try:
                P.generate_particles(**args)
            except err:
                pass
            except Exception as e:
                c.fail('wrong kind of error', args=kw, error=repr(e))
            else:
                c.fail('invalid input was accepted', args=kw)
            c.check((P.walk_data is None) == (old is None) and
                    (old is None or walk.same_walk(old, P.walk_data) is None),
                    'invalid input changed the particles', args=kw)
            c.count('invalid')
            usable(c, P, 'after invalid input')
        if rng.random() < .1:
            # locations out of the grid, if they are refused at once
            old = walk.snap(P.walk_data)
            try:
                P.generate_particles(3, [L + 5], [W + 5], method=method)
            except Exception:
                c.check((P.walk_data is None) == (old is None) and
                        (old is None or walk.same_walk(old, P.walk_data)
                         is None), 'a refused call changed the particles')
                c.count('refused')
            else:   # (start again)
                P = pt.Particles(sc.params())
                if old is not None:
                    P.generate_particles(0, [], [],
                                         previous_walk_data=old)
            usable(c, P, 'after locations out of the grid')
        num = n if rng.random() < .8 else [float(n), np.int64(n), str(n)][
            int(rng.integers(3))]
        style = int(rng.integers(3))
        if method == 'random' and style == 0:
            if t == 0:
                P.generate_particles(num, fx, fy)
            else:
                P.generate_particles(num, fx, fy, t)
        elif style == 1:
            P.generate_particles(num, fx, fy, t, method)
        else:
            P.generate_particles(Np_tracer=num, seed_xloc=fx, seed_yloc=fy,
                                 seed_time=t, method=method)
        wd = P.walk_data
        c.check(len(wd['xinds']) == total + n and
                len(wd['yinds']) == total + n and
                len(wd['travel_times']) == total + n,
                'number of particles', asked=n, had=total,
                got=len(wd['xinds']))
        c.check((repr(fx), repr(fy)) == keep, 'the lists given were changed')
        X = [x[0] for x in wd['xinds'][total:]]
        Y = [y[0] for y in wd['yinds'][total:]]
        T = [q[0] for q in wd['travel_times'][total:]]
        for p in range(n):
            c.check(len(wd['xinds'][total + p]) == 1 and
                    len(wd['yinds'][total + p]) == 1 and
                    len(wd['travel_times'][total + p]) == 1,
                    'new particles have one entry')
        c.check(T == [t]*n, 'the seed time is not that given', given=t,
                got=T[:10])
        if method == 'exact':
            c.check(X == [xs[i % k] for i in range(n)] and
                    Y == [ys[i % k] for i in range(n)],
                    'exact locations are not those given, in turn',
                    xs=xs, ys=ys, X=X[:20], Y=Y[:20])
            c.count('exact_particles', n)
        else:
            c.check(set(X) <= set(xs) and set(Y) <= set(ys),
                    'particles outside of the locations given', xs=xs, ys=ys,
                    X=X[:20], Y=Y[:20])
            c.count('random_particles', n)
            if big:
                ux, uy = sorted(set(xs)), sorted(set(ys))
                px = np.array([xs.count(v) for v in ux])/len(xs)
                py = np.array([ys.count(v) for v in uy])/len(ys)
                got = np.zeros((len(ux), len(uy)), int)
                for a, b in zip(X, Y):
                    got[ux.index(a), uy.index(b)] += 1
                freq(c, got.ravel(), np.outer(px, py).ravel(),
                     'seeding at random', xs=xs, ys=ys)
        total += n
        c.sig(method, n, xs, ys, t)
    c.sample(dict(method=method, n=n, xs=xs, ys=ys, seed_time=t))


def finalize(m):
    pool = stats.Pool()
    for s in m.stats:
        pool.add(s['t'])
    m.extra = dict(tests=pool.n, z=float(pool.z))
    if pool.z > 7.5:
        raise Violation('seeding at random is not even', z=pool.z)
