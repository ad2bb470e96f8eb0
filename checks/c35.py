"""C35: walks depend on their surroundings only, however the domain lies.

Pairs of runs are compared; nothing is expected here but that they agree.
"""
import numpy as np
from vlib import gen, stats, walk
from vlib.boot import pt
from vlib.core import Violation

N = {'quick': 22500, 'thorough': 400000}
CHUNK = 20
RULE = ('random flows (rough and smooth, with dry and land cells) and runs '
        '(iterations and target times, random walk and steepest descent), '
        'each compared with: the flow turned or mirrored, another flow '
        'outside of the surroundings of the cells passed, the domain within '
        'a larger one, other units of length, time or depth, another datum, '
        'another origin of time, particles alone, and other values of what '
        'gamma or theta say to ignore. Non-trivial: particles '
        'moved; distinct by kind and walk.')
KINDS = ['turned', 'turned_odds', 'elsewhere', 'within', 'units', 'datum',
         'time', 'alone', 'ignored']
MIN = {'moves_compared': 100000, 'odds_steps': 20000}
MIN.update({'pairs_' + k: 800 for k in KINDS})
ASSUMPTIONS = ['times agree to 1e-9, with other units to 3e-7, of the '
               'longest step', 'turned steepest descent is compared where no '
               'two ways are alike to 1e-6']

# the eight ways to lay a grid: transposed or not, rows and columns reversed
LAYS = [(t, a, b) for t in (0, 1) for a in (1, -1) for b in (1, -1)]


class Flow:
    """Depth, stage, velocity in rows and columns, and cell types."""

    def __init__(self, rng, steepest):
        self.shape = L, W = (int(rng.integers(6, 16)),
                             int(rng.integers(6, 16)))
        d = np.exp(rng.normal(.5, .6, self.shape))
        d[rng.random(self.shape) < rng.choice([0, 0, .1, .3])] = 0.
        if rng.random() < .3:
            d[rng.random(self.shape) < .05] *= 40.
        self.depth = d
        i, j = np.mgrid[0:L, 0:W]
        m = float(rng.choice([.002, .1, 1.]))
        g = rng.normal(0, .1*m, 2)
        # (dyadic, so that a datum added takes nothing from differences)
        self.stage = np.round((g[0]*i + g[1]*j + rng.normal(
            0, m*rng.choice([.01, .1, .5]), self.shape))*2**24)/2**24
        a = rng.uniform(0, 2*np.pi) + rng.normal(
            0, rng.choice([.05, .4, 3.]), self.shape)
        s = np.exp(rng.normal(rng.uniform(-1.5, 1.), .5, self.shape))
        self.vr, self.vc = s*np.sin(a), s*np.cos(a)
        ct = np.zeros(self.shape, int)
        if rng.random() < .4:
            ct[rng.random(self.shape) < .12] = 2
        ct[[0, -1]] = -1
        ct[:, [0, -1]] = -1
        self.ct = ct
        self.dx = float(np.round(10**rng.uniform(-.5, 2.), 2))
        self.dry = .1
        self.theta = float(rng.choice([0., 1., 1., 2.5]))
        self.gamma = float(rng.choice([.05, .05, .5, 0., 1.]))
        self.diff = 0. if steepest else float(rng.choice([0., .2, 1.]))
        self.steepest = steepest
        self.anuga = bool(rng.integers(2))
        self.topography = bool(rng.integers(2))
        self.discharge = False

    def copy(self):
        f = object.__new__(Flow)
        f.__dict__.update({k: v.copy() if isinstance(v, np.ndarray) else v
                           for k, v in self.__dict__.items()})
        return f

    def object(self):
        p = pt.modelParams()
        p.dx, p.theta, p.gamma = self.dx, self.theta, self.gamma
        p.diff_coeff, p.dry_depth = self.diff, self.dry
        p.steepest_descent = self.steepest
        p.verbose = False
        p.depth = self.depth.copy()
        if self.topography:
            p.topography = self.stage - self.depth
            p.stage = self.stage.copy()
            p.depth = None
        else:
            p.stage = self.stage.copy()
        f = self.depth if self.discharge else 1.
        names = ('qx', 'qy') if self.discharge else ('u', 'v')
        if self.anuga:
            x, y = f*self.vc, -f*self.vr
        else:
            p.model = 'DeltaRCM'
            x, y = f*self.vr, f*self.vc
        setattr(p, names[0], x)
        setattr(p, names[1], y)
        p.cell_type = self.ct.copy()
        p.particle_variables = ['depth']
        return pt.Particles(p)

    def laid(self, lay):
        t, a, b = lay
        f = self.copy()
        for k in ('depth', 'stage', 'vr', 'vc', 'ct'):
            setattr(f, k, turn(getattr(self, k), lay))
        if t:
            f.vr, f.vc = f.vc, f.vr
        f.vr, f.vc = a*f.vr, b*f.vc
        f.shape = f.depth.shape
        return f


def turn(g, lay):
    t, a, b = lay
    g = g.T if t else g
    return np.ascontiguousarray(g[::a, ::b])


def where(i, j, shape, lay):
    """The cell (i, j) in the grid laid otherwise."""
    t, a, b = lay
    if t:
        i, j, shape = j, i, shape[::-1]
    return (i if a > 0 else shape[0] - 1 - i, j if b > 0 else
            shape[1] - 1 - j)


def laid_walk(wd, shape, lay):
    out = {k: [list(x) for x in v] for k, v in wd.items()}
    for p in range(len(wd['xinds'])):
        q = [where(i, j, shape, lay) for i, j in zip(wd['xinds'][p],
                                                     wd['yinds'][p])]
        out['xinds'][p], out['yinds'][p] = ([z[0] for z in q],
                                            [z[1] for z in q])
    return out


def run(P, starts, ops, seed, t0=0.):
    """Seed one by one, and do the operations."""
    np.random.seed(seed)
    P.generate_particles(len(starts), [s[0] for s in starts],
                         [s[1] for s in starts], seed_time=t0,
                         method='exact')
    for o in ops:
        if o is None:
            P.run_iteration()
        else:
            P.run_iteration(target_time=t0 + o, max_iter=60)
    return walk.snap(P.walk_data)


def compare(c, kind, A, B, tol=1e-9, t=lambda x: x, detail=None,
            values=True):
    """Walks A and B, where B's times should be t(A's)."""
    for q in ('xinds', 'yinds'):
        for p, (x, y) in enumerate(zip(A[q], B[q])):
            if list(x) != list(y):
                n = next((k for k, (u, v) in enumerate(zip(x, y)) if u != v),
                         min(len(x), len(y)))
                raise Violation('%s: walks differ' % kind, particle=p,
                                variable=q, entry=n, one=list(x)[n-2:n+2],
                                other=list(y)[n-2:n+2],
                                lengths=(len(x), len(y)), **(detail or {}))
    for p, (x, y) in enumerate(zip(A['travel_times'], B['travel_times'])):
        x, y = np.array([t(float(q)) for q in x]), np.array(y, float)
        big = max([1e-300] + list(np.abs(np.diff(x)))) * max(1, len(x)) + \
            1e-6*abs(x[0])
        c.check(np.all(np.abs(x - y) <= tol*big), '%s: times differ' % kind,
                particle=p, one=x, other=y, **(detail or {}))
    if values:
        c.check(A['depth'] == B['depth'], '%s: tracked values differ' % kind)
    m = sum(len(x) - 1 for x in A['xinds'])
    c.count('pairs_' + kind)
    c.count('moves_compared', m)
    if m:
        c.sig(kind, A['xinds'], A['yinds'])
        c.sample(dict(kind=kind, moves=m, **(detail or {})))


def passed(wd, shape):
    """Cells passed, and their neighbors."""
    m = np.zeros(shape, bool)
    for X, Y in zip(wd['xinds'], wd['yinds']):
        for i, j in zip(X, Y):
            m[max(i-1, 0):i+2, max(j-1, 0):j+2] = True
    return m


def distinct(F, wd):
    """Whether the ways from all cells passed differ well (so that rounding
    does not decide), by the weights as documented."""
    off = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    for X, Y in zip(wd['xinds'], wd['yinds']):
        for i, j in set(zip(X, Y)):
            if not (0 < i < F.shape[0]-1 and 0 < j < F.shape[1]-1):
                continue
            S, I, h = np.zeros(9), np.zeros(9), np.zeros(9)
            for k, (a, b) in enumerate(off):
                n = (i+a, j+b)
                h[k] = F.depth[n]
                if k == 4 or F.depth[n] <= F.dry or F.ct[n] == 2:
                    continue
                r = np.hypot(a, b)
                S[k] = max(0, (F.stage[i, j] - F.stage[n])/r)
                I[k] = max(0, F.depth[i, j]*(
                    F.vr[i, j]*a + F.vc[i, j]*b)/r**2)
            s, t = S.sum(), I.sum()
            if 0 < s < 1e-6 or 0 < t < 1e-6*F.depth[i, j]*np.hypot(
                    F.vr[i, j], F.vc[i, j]):
                return False
            w = h**F.theta*(F.gamma*(S/s if s else S) +
                            (1-F.gamma)*(I/t if t else I))
            if w.sum() <= 0:
                w = h
            w = np.sort(w)
            if w[-1] - w[-2] < 1e-6*w[-1] or w[-1] <= 0:
                return False
    return True


def case(c):
    rng = c.rng
    kind = KINDS[c.idx % 9]
    steepest = kind in ('turned', 'alone') or (
        kind not in ('turned_odds',) and rng.random() < .25)
    F = Flow(rng, steepest)
    n = gen.size(rng, 1, 8, 60, .01)
    open_ = np.argwhere((F.depth > F.dry) & (F.ct == 0))
    if len(open_) == 0:
        c.count('no_water')
        return
    starts = [tuple(int(v) for v in open_[int(rng.integers(len(open_)))])
              for _ in range(n)]
    speed = float(np.median(np.hypot(F.vr, F.vc)))
    t, ops = 0., []
    for _ in range(gen.size(rng, 1, 8, 60, .01)):
        if rng.random() < .35:
            t += float(rng.uniform(.3, 4))*F.dx/speed
            ops.append(t)
        else:
            ops.append(None)
    seed = int(rng.integers(2**31))
    F.discharge = kind != 'units' and rng.random() < .3
    c.desc = dict(kind=kind, shape=F.shape, dx=F.dx, theta=F.theta,
                  gamma=F.gamma, diff=F.diff, steepest=steepest,
                  starts=starts, ops=ops, seed=seed, anuga=F.anuga)

    if kind == 'turned_odds':
        return odds(c, F, starts[0], seed)
    if kind == 'ignored':
        which = int(rng.integers(3))
        F.gamma = [0., 1., F.gamma][which]
        F.theta = F.theta if which < 2 else 0.
    P = F.object()
    A = run(P, starts, ops, seed)

    if kind == 'turned':
        if not distinct(F, A):
            c.count('alike')
            c.count('pairs_turned')     # looked at, not compared
            return
        lay = LAYS[int(rng.integers(1, 8))]
        c.desc['lay'] = lay
        B = run(F.laid(lay).object(), [where(i, j, F.shape, lay)
                                       for i, j in starts], ops, seed)
        c.count('lay_%d%d%d' % lay)
        compare(c, kind, laid_walk(A, F.shape, lay), B, 1e-7,
                detail=dict(lay=lay))
    elif kind == 'elsewhere':
        far = ~passed(A, F.shape)
        G, H = F.copy(), Flow(np.random.default_rng(seed), steepest)
        shp = F.shape
        m = float(rng.choice([1e-3, 1., 1., 1e3]))
        for k in ('depth', 'stage', 'vr', 'vc'):
            g = np.resize(getattr(H, k), shp)*(m if k != 'stage' else 1)
            getattr(G, k)[far] = g[far]
        ct = rng.choice([-1, 0, 0, 2], shp)
        G.ct[far] = ct[far]
        if rng.random() < .3:
            for k in ('vr', 'vc'):
                getattr(G, k)[far & (rng.random(shp) < .3)] = np.nan
        c.count('cells_changed', far.sum())
        compare(c, kind, A, run(G.object(), starts, ops, seed))
    elif kind == 'within':
        a, b, e, f = [int(v) for v in rng.integers(0, 9, 4)]
        G = F.copy()
        shp = (F.shape[0] + a + b, F.shape[1] + e + f)
        H = Flow(np.random.default_rng(seed), steepest)
        for k in ('depth', 'stage', 'vr', 'vc', 'ct'):
            g = np.resize(getattr(H, k), shp)
            g[a:a+F.shape[0], e:e+F.shape[1]] = getattr(F, k)
            setattr(G, k, g)
        G.shape = shp
        c.desc['around'] = (a, b, e, f)
        B = run(G.object(), [(i+a, j+e) for i, j in starts], ops, seed)
        B['xinds'] = [[i - a for i in x] for x in B['xinds']]
        B['yinds'] = [[j - e for j in x] for x in B['yinds']]
        compare(c, kind, A, B)
    elif kind == 'units':
        G, s = F.copy(), 1.
        which = int(rng.integers(1, 8))
        if which & 1:
            k = 2.**int(rng.integers(-4, 8))
            G.dx *= k
            s *= k
        if which & 2:
            k = 2.**int(rng.integers(-2, 8))
            G.vr, G.vc = G.vr*k, G.vc*k
            s /= k
        if which & 4:
            k = 2.**int(rng.integers(-3, 6))
            G.depth, G.dry, G.stage = G.depth*k, G.dry*k, G.stage*k
        c.desc['times'] = s
        # (target times below the shortest step that is foreseen, .1, are
        # met differently)
        if s != 1:
            ops = [None]*len(ops)
            A = run(F.object(), starts, ops, seed)
        B = run(G.object(), starts, ops, seed)
        compare(c, kind, A, B, 3e-7, lambda x: x*s, dict(which=which),
                values=not which & 4)
    elif kind == 'datum':
        G = F.copy()
        G.stage = F.stage + float(rng.choice([-256, -8, 1.5, 64, 2048]))
        F.topography = G.topography = False
        A = run(F.object(), starts, ops, seed)
        compare(c, kind, A, run(G.object(), starts, ops, seed))
    elif kind == 'ignored':
        G = F.copy()
        c.desc['which'] = which
        if which == 0:
            G.stage = rng.normal(0, 10.**rng.integers(-2, 2), F.shape)
            F.topography = G.topography = False
            A = run(F.object(), starts, ops, seed)
            B = run(G.object(), starts, ops, seed)
            compare(c, kind, A, B, detail=dict(which=which))
            return
        if which == 1:
            G.vr, G.vc = rng.normal(0, 2., (2,) + F.shape)
        else:   # (which cells are deepest stays)
            wet = F.depth > F.dry
            G.depth[wet] *= 1 + float(rng.uniform(0, 3))*F.depth[wet]
            F.discharge = G.discharge = False
        # positions only
        A = run(F.object(), starts, [None]*len(ops), seed)
        B = run(G.object(), starts, [None]*len(ops), seed)
        B['travel_times'] = A['travel_times']
        compare(c, kind, A, B, detail=dict(which=which), values=False)
    elif kind == 'time':
        t0 = float(rng.choice([-1, 1]))*2.**int(rng.integers(0, 12))
        if rng.random() < .3:
            t0 *= F.dx/speed
        c.desc['t0'] = t0
        B = run(F.object(), starts, ops, seed, t0=t0)
        compare(c, kind, A, B, 1e-6, lambda x: x + t0)
    else:
        if not distinct(F, A):
            c.count('alike')
            c.count('pairs_alone')
            return
        for k in range(min(n, 4)):
            p = int(rng.integers(n))
            B = run(F.object(), [starts[p]], ops, seed + 1 + k)
            compare(c, kind, {q: [v[p]] for q, v in A.items()}, B)
        o = [int(v) for v in rng.permutation(n)]
        B = run(F.object(), [starts[p] for p in o], ops, seed)
        compare(c, kind, {q: [v[p] for p in o] for q, v in A.items()}, B)


def odds(c, F, at, seed):
    """Chances of one step, in the domain turned."""
    rng = c.rng
    lay = LAYS[int(rng.integers(1, 8))]
    n = 300
    res = []
    for G, s, f in ((F, at, lambda i, j: where(i, j, F.shape, lay)),
                    (F.laid(lay), where(*at, F.shape, lay),
                     lambda i, j: (i, j))):
        np.random.seed(seed if G is F else seed ^ 1)
        P = G.object()
        P.generate_particles(n, [s[0]], [s[1]], method='exact')
        P.run_iteration()
        ends, times = {}, {}
        for X, Y, T in zip(P.walk_data['xinds'], P.walk_data['yinds'],
                           P.walk_data['travel_times']):
            q = f(int(X[-1]), int(Y[-1]))
            ends[q] = ends.get(q, 0) + 1
            times.setdefault(q, []).append(float(T[-1]))
        res.append((ends, times))
    (a, ta), (b, tb) = res
    keys = sorted(set(a) | set(b))
    x, y = [a.get(k, 0) for k in keys], [b.get(k, 0) for k in keys]
    stat = sum((u - v)**2/(u + v) for u, v in zip(x, y))
    # (chi-square with at most 8 degrees of freedom; its tail at 90 is 1e-15)
    c.check(stat < 90, 'turned: other chances of a step', lay=lay, cells=keys,
            one=x, other=y, statistic=stat)
    for k in keys:
        if k in ta and k in tb:
            u, v = np.array(ta[k]), np.array(tb[k])
            w = F.diff/2
            # all times are within 1 -+ w times the same
            c.check(max(u.max(), v.max()) <= min(u.min(), v.min())*(1+w)/(1-w)
                    * (1+1e-7) + 1e-9, 'turned: other times of a step',
                    lay=lay, to=k, one=(u.min(), u.max()),
                    other=(v.min(), v.max()))
    c.stat(d=[(u - v) for u, v in zip(x, y)],
           v=[(u + v) for u, v in zip(x, y)])
    c.count('odds_steps', 2*n)
    c.count('pairs_turned_odds')
    c.count('lay_%d%d%d' % lay)
    if len(keys) > 1:
        c.sig('odds', keys, at, lay, x)


def finalize(m):
    """Pooled: squared differences over all cells have the size that chance
    gives."""
    z = n = 0.
    for s in m.stats:
        for d, v in zip(s['d'], s['v']):
            if 20 <= v <= 580:
                # difference of two binomials of the same p
                p = v/600.
                q = 600*p*(1-p)*600./599
                z += d*d/q - 1
                n += 1
    if n > 200:
        z /= np.sqrt(2*n)*1.3
        m.extra = dict(cells=n, z=z)
        if abs(z) > 8:
            raise Violation('turned: chances of steps differ in all, z=%.1f'
                            % z, cells=n)
