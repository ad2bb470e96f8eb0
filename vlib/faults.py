"""Failures injected into what the code calls."""
import contextlib
import numpy as np
from .boot import dorado, lw, pt, pr, routines, spatial

NAMES = [n for n in (
    'random', 'random_sample', 'ranf', 'sample', 'uniform', 'rand', 'randint',
    'choice', 'normal', 'standard_normal', 'randn', 'multinomial',
    'permutation', 'shuffle', 'exponential', 'binomial')
    if hasattr(np.random, n)]
REAL = {n: getattr(np.random, n) for n in NAMES}


@contextlib.contextmanager
def draws(on_draw):
    """Call on_draw() before each draw from numpy's global generator."""
    def wrap(f):
        def draw(*a, **kw):
            on_draw()
            return f(*a, **kw)
        return draw
    new = {n: wrap(f) for n, f in REAL.items()}
    by_id = {id(f): new[n] for n, f in REAL.items()}
    undo = []
    for mod in (np.random, dorado, lw, pt, pr, routines, spatial):
        for k, v in list(vars(mod).items()):
            if id(v) in by_id:
                undo.append((mod, k, v))
                setattr(mod, k, by_id[id(v)])
    try:
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)


class Nth:
    """Raises the given exception the k-th time it is called."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def __call__(self):
        self.n += 1
        if self.n == self.k:
            raise self.exc
