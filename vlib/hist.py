"""Walk data made up, or from runs of the code."""
import contextlib
import logging
import re
import numpy as np
from . import gen, walk
from .boot import pt
from .ref import Ref


def synthetic(rng, shape, n=None, maxlen=25, extra=None, minlen=1,
              dt='mixed'):
    """Histories of adjacent cells with non-decreasing times."""
    L, W = shape
    n = gen.size(rng, 1, 12, 400, .01) if n is None else n
    long = rng.random() < .01
    if long:
        n = min(n, 40)
        maxlen *= int(rng.choice([30, 30, 100]))
    wd = {k: [] for k in walk.BASE}
    # (spread out, or from a few cells, as is usual)
    few = None
    if rng.random() < .5:
        few = [(int(rng.integers(L)), int(rng.integers(W)))
               for _ in range(int(rng.integers(1, 4)))]
    drift = rng.normal(size=2)*rng.choice([0, 1.])
    scale = float(rng.choice([.01, 1., 60., 3600.]))
    early = scale*float(rng.uniform(1, 9)) if rng.random() < .04 else 0.
    for _ in range(n):
        if few is not None:
            i, j = few[int(rng.integers(len(few)))]
        else:
            i, j = int(rng.integers(L)), int(rng.integers(W))
        t = 0. if rng.random() < .8 else float(rng.uniform(0, 5))*scale
        t -= early
        X, Y, T = [i], [j], [t]
        m = int(rng.integers(minlen, maxlen + 1))
        while len(X) < m:
            a, b = [int(v) for v in np.clip(np.round(
                rng.normal(size=2) + drift), -1, 1)]
            if (a, b) == (0, 0) and rng.random() < .9:
                continue
            i2, j2 = i + a, j + b
            if not (0 <= i2 < L and 0 <= j2 < W):
                if L*W == 1 or (rng.random() < .3 and not long):
                    break
                drift = -drift
                continue
            i, j = i2, j2
            r = rng.random()
            if dt == 'dyadic':
                d = float(gen.dyadic(rng, 0, 4, None, 2))
            elif r < .08:
                d = 0.
            elif r < .12:
                d = scale*100*float(rng.random())
            else:
                d = scale*float(rng.uniform(.1, 2))
            t = t + d
            X.append(i)
            Y.append(j)
            T.append(t)
        wd['xinds'].append(X)
        wd['yinds'].append(Y)
        wd['travel_times'].append(T)
    for k in (extra or []):
        wd[k] = [[float(v) for v in rng.normal(size=len(x))]
                 for x in wd['xinds']]
    return wd


def permuted(wd, order):
    return {k: [list(v[i]) for i in order] for k, v in wd.items()}


def real(rng, hi=14, lo=5, steps=(5, 40), n=None, extra=False):
    """(scenario, reference, walk data) of a run."""
    sc = gen.scenario(rng, lo=lo, hi=hi, steepest=False,
                      depth=['wet', 'bowl', 'islands'][int(rng.integers(3))])
    if extra:
        gen.add_tracking(rng, sc)
    if rng.random() < .6:
        sc.options['cell_type'] = np.zeros(sc.shape, int)
    ref = Ref(sc)
    P = pt.Particles(sc.params())
    n = n or gen.size(rng, 1, 9, 200, .01)
    xs, ys = gen.seed_cells(rng, sc, max(1, n//2), 'wet', ref)
    P.generate_particles(n, xs, ys)
    for _ in range(int(rng.integers(*steps))):
        P.run_iteration()
    return sc, ref, walk.snap(P.walk_data)


class Catch(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))


@contextlib.contextmanager
def logged(level='INFO'):
    """Messages of the library, caught where they are made."""
    log = logging.getLogger('dorado')
    lvl, hs, prop, dis = log.level, list(log.handlers), log.propagate, \
        log.disabled
    h = Catch()
    log.handlers[:] = [h]
    log.setLevel(level)
    log.propagate = False
    try:
        yield h.records
    finally:
        log.handlers[:] = hs
        log.setLevel(lvl)
        log.propagate = prop
        log.disabled = dis


def named(msg):
    """Particles that a message names: those in brackets, if any."""
    m = re.findall(r'\[([^\]]*)\]', msg)
    if m:
        return sorted(int(v) for v in re.findall(r'-?\d+', m[-1]))
    return sorted(int(v) for v in re.findall(r'-?\d+', msg)[1:])


def exposure(wd, roi):
    """Exposure times as documented, and the sums of all terms."""
    out, full = [], []
    for X, Y, T in zip(wd['xinds'], wd['yinds'], wd['travel_times']):
        inside = [int(roi[int(x), int(y)]) == 1 for x, y in zip(X, Y)]
        e = 0.
        for k in range(1, len(T)):
            e += .5*(inside[k - 1] + inside[k])*(T[k] - T[k - 1])
        out.append(e)
        full.append(abs(T[-1]) + abs(T[0]))
    return out, full
