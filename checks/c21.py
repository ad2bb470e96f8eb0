"""C21: flux-proportional seeding."""
from fractions import Fraction
import math
import numpy as np
from vlib import gen
from vlib.boot import pt

N = {'quick': 125000, 'thorough': 2000000}
RULE = ('random discharges (negative, zeros, equal, of very different size, '
        'whole numbers, as columns) and numbers of particles; counts are '
        'compared with exact shares (fractions). Distinct by discharge and '
        'number.')
MIN = {'distributions': 12000, 'with_remainder': 10000, 'columns': 3000,
       'with_zeros': 3000, 'refused': 1000}
ASSUMPTIONS = ['shares within 1e-9 of another, or of a whole number, may be '
               'rounded either way']


def case(c):
    rng = c.rng
    n = gen.size(rng, 1, 39, 5000, .02)
    style = int(rng.integers(8))
    if style == 0:
        Q = rng.uniform(0, 100, n)
    elif style == 1:
        Q = rng.normal(size=n)*10
    elif style == 2:
        Q = rng.integers(-3, 6, size=n)
    elif style == 3:
        Q = np.exp(3*rng.normal(size=n))
    elif style == 4:
        Q = np.full(n, float(rng.uniform(.1, 9)))
    elif style == 5:
        Q = np.where(rng.random(n) < .5, 0., rng.uniform(0, 1, n))
    elif style == 6:
        Q = 50 + 40*np.sin(np.arange(n)/3.)
    else:
        Q = 10.**rng.uniform(-8, 8, n)
    if rng.random() < .2:
        Q = Q*10.**rng.uniform(-15, 15)
    col = rng.random() < .25
    if col:
        Q = Q.reshape(-1, 1)
    N_total = int(rng.choice([1, 2, 5, 10, 17, 100, 1000, 12345,
                              int(rng.integers(0, 5000)), 40000, 3*10**6,
                              10**9 + 7]))
    steps = n if rng.random() < .6 else int(rng.integers(0, n + 1))
    c.desc = dict(Q=Q, N_total=N_total, num_steps=steps)
    was = Q.copy()
    if rng.random() < .05:
        try:
            pt.flux_proportional_seeding(Q, N_total,
                                         n + int(rng.integers(1, 5)))
        except ValueError:
            c.count('refused')
        else:
            c.fail('too few timesteps were accepted')
    if rng.random() < .03 or not Q.any():
        try:
            pt.flux_proportional_seeding(np.zeros_like(Q), N_total, steps)
        except ValueError:
            c.count('refused')
        else:
            c.fail('zero discharge was accepted')
        if not Q.any():
            return
    out = pt.flux_proportional_seeding(Q, N_total, steps)
    c.check(np.array_equal(Q, was), 'the discharge was changed')
    out = np.asarray(out)
    c.check(out.size == n, 'one number for each timestep', shape=out.shape)
    c.check(np.issubdtype(out.dtype, np.integer), 'not integers',
            dtype=str(out.dtype))
    k = [int(v) for v in out.ravel()]
    c.check(sum(k) == N_total, 'the numbers do not sum to the number of '
            'particles', got=k)
    q = [abs(Fraction(float(v))) for v in Q.ravel()]
    tot = sum(q)
    share = [v*N_total/tot for v in q]
    eps = 1e-9*max(1, N_total*1e-3)
    for a, b, v in zip(k, share, q):
        c.check(a >= 0 and abs(a - float(b)) < 1 + eps, 'a number is not '
                'within 1 of its share', share=float(b), got=a)
        c.check(v != 0 or a == 0, 'particles without discharge', got=k)
    # larger remainders are rounded up
    rem = [float(b - math.floor(b)) for b in share]
    up = [r for r, a, b in zip(rem, k, share) if a > b + eps and r > eps]
    down = [r for r, a, b in zip(rem, k, share)
            if a < b - eps and r < 1 - eps]
    c.check(not up or not down or min(up) >= max(down) - 2*eps,
            'a smaller remainder was rounded up, a larger one down',
            up=up, down=down, got=k)
    c.count('distributions')
    c.count('columns', col)
    if up:
        c.count('with_remainder')
    if any(v == 0 for v in q):
        c.count('with_zeros')
    c.sig(Q, N_total)
    c.sample(dict(Q=Q, N_total=N_total, counts=k))
