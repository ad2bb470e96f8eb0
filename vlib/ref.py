"""The reference model: what the documentation says about one step.

Worked out cell by cell from the arrays that the user gave, independently of
the code under test.
"""
import math
import numpy as np
from .gen import ABSENT

# the nine cells around one, row by row, as (row, column) offsets
OFF = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1),
       (1, -1), (1, 0), (1, 1)]
LEN = [math.hypot(*o) for o in OFF]
VMIN = 1e-8


class Ref:
    def __init__(self, sc):
        A, o = sc.arrays, sc.options
        f = {k: np.asarray(a, dtype=float) for k, a in A.items()}
        self.dx = float(o['dx'])
        self.theta = float(o.get('theta', 1.0))
        self.gamma = float(o.get('gamma', 0.05))
        self.dry = float(o.get('dry_depth', 0.1))
        self.steepest = o.get('steepest_descent', False) is True
        self.diff = max(0., float(o.get('diff_coeff',
                                        0. if self.steepest else .2)))
        # water
        if 'depth' in f:
            self.depth = np.where(np.isnan(f['depth']), 0., f['depth'])
        else:
            # (in the user's precision)
            d = np.asarray(A['stage'] - A['topography'], dtype=float)
            self.depth = np.where(np.isnan(d) | (d < 0), 0., d)
        if 'stage' in f:
            s = f['stage']
        else:
            s = np.asarray(A['topography'] + A['depth'], dtype=float)
        self.stage = np.where(self.depth == 0, np.nan, s)
        # flow, towards higher rows (r) and higher columns (c)
        names = ('qx', 'qy') if 'qx' in f else ('u', 'v')
        x, y = f[names[0]], f[names[1]]
        x, y = np.where(np.isnan(x), 0., x), np.where(np.isnan(y), 0., y)
        r, c = (x, y) if o.get('model', None) == 'DeltaRCM' else (-y, x)
        if names[0] == 'qx':
            self.qr, self.qc = r, c
            with np.errstate(all='ignore'):
                self.vr = np.where(self.depth > 0, r/self.depth, 0.)
                self.vc = np.where(self.depth > 0, c/self.depth, 0.)
                # (the code regularizes this division)
                self.vtol = np.where(self.depth > 0, 2e-8/self.depth**2, 1.)
        else:
            self.vr, self.vc = r, c
            self.qr, self.qc = r*self.depth, c*self.depth
            self.vtol = np.zeros_like(r)
        self.f32 = any(a.dtype == np.float32 for a in A.values())
        if self.f32:
            self.vtol = self.vtol + 2e-6
        self.speed = np.hypot(self.vr, self.vc)
        self.shape = self.depth.shape
        # cell types
        if 'cell_type' in o:
            self.ct = np.array(o['cell_type'])
        else:
            ct = np.where(self.depth < self.dry, 2, 0)
            ct[0, :] = ct[-1, :] = -1
            ct[:, 0] = ct[:, -1] = -1
            self.ct = ct
        self._probs = {}

    # -- cells
    def wet(self, i, j):
        return self.depth[i, j] > self.dry

    def open_cells(self):
        return (self.depth > self.dry) & (self.ct != 2)

    def is_open(self, i, j):
        return bool(self.depth[i, j] > self.dry and self.ct[i, j] != 2)

    def on_border(self, i, j):
        L, W = self.shape
        return i == 0 or j == 0 or i == L - 1 or j == W - 1

    def at_edge(self, i, j):
        """On, or next to, an edge cell."""
        return bool((self.ct[max(i - 1, 0):i + 2, max(j - 1, 0):j + 2]
                     == -1).any())

    def frozen(self, i, j):
        return self.on_border(i, j) or self.at_edge(i, j)

    # -- moves
    def weights(self, i, j):
        """Routing weights of the nine cells around (i, j), and whether they
        are well conditioned. None at the border."""
        key = (i, j)
        if key in self._probs:
            return self._probs[key]
        if self.on_border(i, j):
            return None, False
        ok = True
        S, I, can = [0.]*9, [0.]*9, [False]*9
        qs = math.hypot(self.qr[i, j], self.qc[i, j])
        noise_s = False
        for k, (a, b) in enumerate(OFF):
            if k == 4:
                continue
            n = (i + a, j + b)
            can[k] = self.is_open(*n)
            if not can[k]:
                continue
            ds = (self.stage[i, j] - self.stage[n])/LEN[k]
            if math.isnan(ds):
                ok = False
                ds = 0.
            if 0 < abs(ds) < 1e-9*max(1., abs(self.stage[i, j])):
                noise_s = True
            S[k] = max(0., ds)
            # component of the discharge in this direction, per distance
            dot = (self.qr[i, j]*a + self.qc[i, j]*b)/LEN[k]
            I[k] = max(0., dot/LEN[k])
        tS, tI = sum(S), sum(I)
        if 0 < tS < 1e-8*max(1., abs(self.stage[i, j])) or (
                tS == 0 and noise_s):
            ok = False
        # (also: parts that have no part in rounding decide)
        if 0 < tI < 1e-8*qs:
            ok = False
        w = [0.]*9
        for k in range(9):
            if can[k]:
                s = S[k]/tS if tS > 0 else 0.
                t = I[k]/tI if tI > 0 else 0.
                h = self.depth[i + OFF[k][0], j + OFF[k][1]]
                w[k] = h**self.theta*(self.gamma*s + (1 - self.gamma)*t)
        noise_i = any(0 < I[k] < 1e-12*qs for k in range(9))
        tot = sum(w)
        fallback = tot <= 0
        if fallback:
            if noise_i or noise_s:
                ok = False
            # would it be different but for rounding?
            for k, (a, b) in enumerate(OFF):
                if k != 4 and can[k]:
                    dot = self.qr[i, j]*a + self.qc[i, j]*b
                    if dot > -1e-12*qs and qs > 0 and dot != 0:
                        ok = False
            # the deepest cells around, land left out (here included)
            best, cand = -1., []
            for k, (a, b) in enumerate(OFF):
                if self.ct[i + a, j + b] == 2:
                    continue
                h = self.depth[i + a, j + b]
                if h > best:
                    best, cand = h, [k]
                elif h == best:
                    cand.append(k)
            if not cand:
                ok = False
            w = [1. if k in cand else 0. for k in range(9)]
            tot = sum(w)
        if self.depth[i, j] <= 0:
            ok = False
        if not (tot > 0 and math.isfinite(tot)):
            ok = False
            p = np.zeros(9)
        else:
            p = np.array(w)/tot
        self._probs[key] = ((p, fallback), ok)
        return self._probs[key]

    def argmax(self, i, j):
        """Offsets a steepest descent may take (ties within rounding), or
        {4} if no neighbor has weight. None if that cannot be said."""
        pf, ok = self.weights(i, j)
        if not ok:
            return None
        p = pf[0].copy()
        m = p.max()
        best = set(int(k) for k in np.flatnonzero(p >= m*(1 - 1e-9)))
        if best == {4}:
            return best
        best.discard(4)
        return best

    # -- time
    def base_time(self, i, j, k):
        """Time without dispersion for the move k out of (i, j): value, and
        relative and absolute tolerances. None if flow is (near) stagnant."""
        a, b = OFF[k]
        n = (i + a, j + b)
        vo, vn = self.speed[i, j], self.speed[n]
        if vo < 1e-5 or (1e-9 < vn < 1e-7):
            return None
        vn = max(vn, VMIN)
        cos = (a*self.vr[i, j] + b*self.vc[i, j])/(LEN[k]*vo)
        d = LEN[k]*self.dx
        inv = .5*(1/vo + 1/vn)
        rel = 1e-9 + self.vtol[i, j] + self.vtol[n]
        if self.depth[n] < 1e-3 or self.depth[i, j] < 1e-3:
            return None
        tol = d*inv*(3e-8/vo + 3e-15 + (2e-6 if self.f32 else 0.))
        return d*max(0., cos)*inv, rel, tol

    def move_of(self, p, n):
        a, b = n[0] - p[0], n[1] - p[1]
        if abs(a) > 1 or abs(b) > 1:
            return None
        return (a + 1)*3 + b + 1
