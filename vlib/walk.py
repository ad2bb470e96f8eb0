"""Observation of walks: snapshots, what was appended, driving."""
import warnings
import numpy as np
from .boot import pt
from .core import Violation
from . import gen
from .ref import Ref

BASE = ('xinds', 'yinds', 'travel_times')


def snap(wd):
    """A deep copy of a walk history (None stays None)."""
    if wd is None:
        return None
    return {k: [list(x) for x in v] for k, v in wd.items()}


def lens(wd):
    return [len(x) for x in wd['xinds']] if wd is not None else []


def same(a, b):
    """Equality of values in histories (NaN equals NaN)."""
    if a is None or b is None:
        return a is None and b is None
    if a == b:
        return True
    try:
        return bool(np.isnan(a) and np.isnan(b))
    except TypeError:
        return False


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same_walk(a, b, keys=None):
    """None if equal, else a description of the first difference."""
    keys = list(keys or a.keys())
    for k in keys:
        if k not in b or k not in a:
            return 'no %s' % k
        if len(a[k]) != len(b[k]):
            return '%s: %d and %d particles' % (k, len(a[k]), len(b[k]))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not same_list(x, y):
                n = next((j for j, (u, v) in enumerate(zip(x, y))
                          if not same(u, v)), min(len(x), len(y)))
                return '%s of particle %d differs from entry %d: %s / %s' \
                    % (k, i, n, list(x)[n:n + 3], list(y)[n:n + 3])
    return None


def new_moves(before, wd):
    """(particle, entry, from, to, time from, time to) of what was appended
    to histories of the given lengths."""
    X, Y, T = wd['xinds'], wd['yinds'], wd['travel_times']
    for p in range(len(X)):
        n0 = before[p] if p < len(before) else 1
        for k in range(max(n0, 1), len(X[p])):
            yield (p, k, (X[p][k - 1], Y[p][k - 1]), (X[p][k], Y[p][k]),
                   T[p][k - 1], T[p][k])


def aligned(wd, tracked=()):
    """None if all histories are aligned, else a description."""
    for k in BASE + tuple(tracked):
        if k not in wd:
            return 'no %s' % k
    n = len(wd['xinds'])
    for k in wd:
        if len(wd[k]) != n:
            return '%s has %d particles, xinds has %d' % (k, len(wd[k]), n)
        for p in range(n):
            if len(wd[k][p]) != len(wd['xinds'][p]):
                return '%s of particle %d has %d entries, xinds has %d' \
                    % (k, p, len(wd[k][p]), len(wd['xinds'][p]))
    return None


def driven(c, sc, P, ref, on_op, n_ops, max_iter=40, where=('any',),
           np_max=20, reflow=None, target=.5):
    """Random operations on a Particles object; after each one,
    on_op(kind, P, ref, before lengths, walk data)."""
    rng = c.rng
    count = gen.size(rng, 1, np_max, 30*np_max, .01)
    xs, ys = gen.seed_cells(rng, sc, count,
                            where[int(rng.integers(len(where)))], ref)
    P.generate_particles(count, xs, ys, method='exact')
    on_op('generate', P, ref, [], P.walk_data)
    clock = 0.
    for _ in range(n_ops):
        before = lens(P.walk_data)
        r = rng.random()
        if r < .1 and reflow is not None:
            sc2 = reflow()
            ref2 = Ref(sc2)
            P2 = pt.Particles(sc2.params())
            P2.generate_particles(0, [], [], previous_walk_data=P.walk_data)
            sc, ref, P = sc2, ref2, P2
            on_op('reflow', P, ref, before, P.walk_data)
            c.count('op_reflow')
        elif r < .18:
            k = int(rng.integers(1, 5))
            xs, ys = gen.seed_cells(rng, sc, k, where[0], ref)
            P.generate_particles(k, xs, ys, method='exact')
            on_op('generate', P, ref, before, P.walk_data)
            c.count('op_generate')
        elif r < .18 + (1 - .18)*target:
            v = np.median(ref.speed) + 1e-3
            clock += float(rng.uniform(.5, 8))*ref.dx/v
            wd = P.run_iteration(target_time=clock,
                                 max_iter=gen.size(rng, 1, max_iter - 1,
                                                   20*max_iter, .005))
            on_op('target', P, ref, before, wd)
            c.count('op_target')
        else:
            for _ in range(gen.size(rng, 1, 5, 300, .01)):
                before = lens(P.walk_data)
                wd = P.run_iteration()
                on_op('step', P, ref, before, wd)
                c.count('op_step')
    return P, ref
