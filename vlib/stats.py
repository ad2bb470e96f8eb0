"""Statistics with thresholds for which a false alarm is out of reach."""
import numpy as np
from scipy import stats as ss


def multinomial(obs, p):
    """Pearson's statistic with its exact mean and variance, after merging
    of cells with little expected. (x2, mean, var) or None."""
    obs, p = np.asarray(obs, float), np.asarray(p, float)
    n = obs.sum()
    if n < 1:
        return None
    o = np.argsort(p)
    obs, p = obs[o], p[o]
    O, E = [], []
    so = se = 0.
    for a, b in zip(obs, p*n):
        so += a
        se += b
        if se >= 10:
            O.append(so)
            E.append(se)
            so = se = 0.
    if se > 0 or so > 0:
        if not E:
            return None
        O[-1] += so
        E[-1] += se
    if len(E) < 2:
        return None
    O, E = np.array(O), np.array(E)
    q = E/n
    k = len(E)
    x2 = ((O - E)**2/E).sum()
    var = 2*(k - 1) + ((1/q).sum() - k*k - 2*k + 2)/n
    return x2, k - 1., max(var, 1e-9)


def binomial_p(k, n, p):
    """Two-sided exact tail (twice the smaller)."""
    k, n = int(k), int(n)
    if p <= 0:
        return 1. if k == 0 else 0.
    if p >= 1:
        return 1. if k == n else 0.
    return float(min(1., 2*min(ss.binom.cdf(k, n, p),
                               ss.binom.sf(k - 1, n, p))))


class Pool:
    """Sum of such statistics."""

    def __init__(self):
        self.x = self.m = self.v = 0.
        self.n = 0

    def add(self, t):
        if t is not None:
            self.x += t[0]
            self.m += t[1]
            self.v += t[2]
            self.n += 1

    @property
    def z(self):
        return (self.x - self.m)/np.sqrt(self.v) if self.v > 0 else 0.
