"""C32: particles in a uniform flow.

What is expected here follows from the flow alone: speed, direction, and
geometry, with no model of single steps.
"""
import os
import shutil
import numpy as np
from vlib import figs, stats, walk
from vlib.boot import pr, pt, routines
from vlib.core import Violation

N = {'quick': 10000, 'thorough': 250000}
CHUNK = 10
RULE = ('flat water of one depth with the same flow everywhere, in any '
        'direction, as velocities or discharges in either convention, at '
        'speeds from .01 to 50; particles are routed one iteration at a '
        'time, to target times, in parallel, and by the routines. '
        'Non-trivial: walks in which particles moved; distinct by flow and '
        'walk.')
MIN = {'entries_timed': 50000, 'axis_walks': 300, 'exposures': 2000,
       'cells_of_nourishment': 3000, 'target_times': 600, 'dispersed': 5000,
       'sideways': 20000, 'still_moves': 20000, 'parallel': 20,
       'unsteady': 10, 'steady': 10, 'seen_from_other_side': 100}
ASSUMPTIONS = ['times agree to 1e-5 or 3e-8 of the inverse speed, for the '
               'lower limit on velocities that the code has']


def build(vr, vc, depth, stage, shape, how, rng):
    """The parameters of a flow of (vr, vc) towards higher (rows, columns)."""
    p = pt.modelParams()
    one = np.ones(shape)
    kind = how['given']
    if kind != 'topography_stage':
        p.depth = depth*one
    if kind != 'topography_depth':
        p.stage = stage*one
    if kind != 'depth_stage':
        p.topography = (stage - depth)*one
    f = depth if how['discharge'] else 1.
    names = ('qx', 'qy') if how['discharge'] else ('u', 'v')
    if how['model'] == 'DeltaRCM':
        x, y = vr, vc
    else:
        x, y = vc, -vr
    setattr(p, names[0], f*x*one)
    setattr(p, names[1], f*y*one)
    if how['model'] is not None:
        p.model = how['model']
    return p


def case(c):
    rng = c.rng
    how = dict(discharge=bool(rng.integers(2)),
               model=['DeltaRCM', 'Anuga', None][int(rng.integers(3))],
               given=['depth_stage', 'topography_stage', 'topography_depth'][
                   int(rng.integers(3))])
    dx = float(np.round(10**rng.uniform(-1, 2.5), 3))
    depth = float(np.round(rng.uniform(.4, 12), 2))
    stage = float(np.round(rng.normal()*5, 2))
    U = float(np.round(10**rng.uniform(-2, 1.7), 4))
    if c.idx % 8 == 7:
        return still(c, how, dx, depth, stage)
    axis = c.idx % 8 < 5
    if axis:
        k = int(rng.integers(4))
        er, ec = [(0, 1), (1, 0), (0, -1), (-1, 0)][k]
    else:
        a = (rng.integers(8)*np.pi/4 if rng.random() < .3 else
             rng.uniform(0, 2*np.pi))
        er, ec = np.sin(a), np.cos(a)
        if abs(er) < 1e-9 or abs(ec) < 1e-9:
            er, ec = float(np.round(er)), float(np.round(ec))
        elif abs(abs(er) - abs(ec)) < 1e-9:
            er, ec = np.sign(er)*np.sqrt(.5), np.sign(ec)*np.sqrt(.5)
    if axis:
        shape = [0, 0]
        long = 0 if er else 1
        shape[long] = int(rng.integers(10, 45))
        shape[1 - long] = int(rng.integers(11, 60))
        shape = tuple(shape)
    else:
        shape = tuple(int(v) for v in rng.integers(9, 50, size=2))
    P0 = build(U*er, U*ec, depth, stage, shape, how, rng)
    P0.dx = dx
    opts = {}
    if rng.random() < .5:
        opts['theta'] = float(np.round(rng.uniform(0, 3), 2))
    if rng.random() < .5:
        opts['gamma'] = float(np.round(rng.uniform(0, .95), 2))
    if rng.random() < .3:
        opts['dry_depth'] = float(rng.choice([.01, .1, .3]))
    if rng.random() < .15:
        opts['steepest_descent'] = True
    D = 0.
    if c.idx % 3 == 2:
        D = float(rng.choice([.2, .5, 1., 1.9]))
    steep = opts.get('steepest_descent', False)
    if D != (0. if steep else .2) or rng.random() < .5:
        opts['diff_coeff'] = D
    for k in opts:
        setattr(P0, k, opts[k])
    n = int(rng.integers(1, 60))
    if axis:        # well inside, upstream
        at = [0, 0]
        long = 0 if er else 1
        down = int(er + ec)
        first = int(rng.integers(2, max(3, shape[long]//3)))
        at[long] = first if down > 0 else shape[long] - 1 - first
        at[1 - long] = shape[1 - long]//2
    else:
        at = [int(rng.integers(2, s - 2)) for s in shape]
    t0 = float(rng.choice([0, 0, 0, 100.]))
    c.desc = dict(how=how, dx=dx, depth=depth, stage=stage, speed=U,
                  direction=(er, ec), shape=shape, options=opts, n=n, at=at,
                  seed_time=t0)
    how_run = ['steps', 'target', 'steps', 'target', 'parallel', 'steps',
               'unsteady', 'steady'][int(rng.choice(8, p=[
                   .3, .2, .1, .2, .05, .1, .025, .025]))]
    span = shape[0 if er else 1] if axis else max(shape)
    step = dx/U
    T = None
    np.random.seed(int(rng.integers(2**31)))
    if how_run == 'parallel':
        t0 = 0.
        its = int(rng.integers(1, span + 3))
        cores = int(rng.integers(1, 3))
        wd = pr.parallel_routing(pt.Particles(P0), its, n, [at[0]],
                                       [at[1]], cores)
        n *= cores
    elif how_run == 'unsteady':
        # (the routine takes no options: it has its defaults)
        D, steep = .2, False
        t0 = 0.
        T = float(rng.uniform(.7, span/2.))*step
        k = int(rng.integers(1, 4))
        n = min(n, 12)
        wd = unsteady(c, U*er, U*ec, depth, stage, shape, dx, n, at, T/k, k)
        T = T/k*k
    else:
        P = pt.Particles(P0)
        P.generate_particles(n, [at[0]], [at[1]], seed_time=t0)
        if how_run == 'steps':
            for _ in range(int(rng.integers(1, span + 3))):
                wd = P.run_iteration()
        elif how_run == 'steady':
            home = os.getcwd()
            place = os.path.join(home, 'c32-%d' % c.idx)
            try:
                with figs.recorded():
                    wd = routines.steady_plots(
                        P, int(rng.integers(1, 8)), place)
            finally:
                shutil.rmtree(place, True)
        else:
            for q in range(int(rng.integers(1, 4))):
                T = t0 + float(rng.uniform(.2, span))*step if T is None \
                    else T + float(rng.uniform(.2, 6.))*step
                wd = P.run_iteration(target_time=T)
    c.count(how_run)
    c.check(len(wd['xinds']) == n, 'particles are missing',
            got=len(wd['xinds']), want=n, run=how_run)
    eps = 1e-5 + 3e-8/U
    moves = 0
    every = []
    for p in range(n):
        x, y, t = [np.array(wd[k][p], float) for k in walk.BASE]
        c.check(x[0] == at[0] and y[0] == at[1] and t[0] == t0,
                'a particle does not start where it was seeded', particle=p)
        along = ((x - x[0])*er + (y - y[0])*ec)*dx
        want = along/U
        t = t - t0
        moves += len(x) - 1
        size = np.hypot(x - x[0], y - y[0])*step
        c.check(np.all(np.abs(t - want) <= D/2*want + eps*(
            want + size) + 1e-12*abs(t0)),
                'the time of a particle is not its way along the flow over '
                'the speed', particle=p, time=t, want=want, dispersion=D)
        if len(t) > 1:
            c.check(np.all(np.diff(t) > 0), 'no time goes by', time=t)
        c.count('entries_timed', len(t))
        if D > 0 and len(t) > 1:
            # (each step has its own dispersion, even to both sides)
            d = np.diff(want)
            e = (np.diff(t) - d)/d
            ok = d > 1e-3*step
            every.extend((e[ok]/D).tolist())
        if axis:
            c.check(np.all(np.diff(along) > .999*dx) and
                    np.all(np.diff(along) < 1.001*dx), 'a step along an axis '
                    'does not go one cell downstream', particle=p,
                    along=along)
    if every:
        # all in units of the coefficient: uniform from -1/2 to 1/2
        e = np.array(every)
        c.count('dispersed', len(e))
        # (target times choose among times, so only the bounds hold there)
        if T is None:
            c.stat(kind='dispersion', n=len(e), s=float(e.sum()),
                   s2=float((e**2).sum()), s4=float((e**4).sum()))
    diagonal = abs(abs(er) - abs(ec)) < 1e-9
    if (axis or diagonal) and n > 1:
        tot = num = 0
        sq = 0.
        for p in range(n):
            x, y = [np.array(wd[k][p], float) for k in walk.BASE[:2]]
            s = np.diff(x)*ec - np.diff(y)*er
            tot += s.sum()
            sq += (s**2).sum()
            num += len(s)
        if not steep:
            c.stat(kind='sideways', s=float(tot), s2=float(sq), n=num,
                   how=[1. if how['model'] == 'DeltaRCM' else 0.,
                        1. if diagonal else 0.])
            c.count('sideways', num)
    if axis:
        c.count('axis_walks')
        along_axis(c, wd, shape, at, er, ec, dx, U, D, T, t0, n, eps)
    if moves:
        c.sig(np.round([er, ec, U, dx], 4), wd['xinds'], wd['yinds'])
        c.sample(dict(c.desc, run=how_run, moves=moves))


def along_axis(c, wd, shape, at, er, ec, dx, U, D, T, t0, n, eps):
    rng = c.rng
    step = dx/U
    long = 0 if er else 1
    down = int(er + ec)
    key = walk.BASE[long]
    end = shape[long] - 3 if down > 0 else 2    # next to the edge cells
    room = (end - at[long])*down
    if T is not None and D == 0:
        # the nearest cell to speed * time, or the last before the edge
        far = (T - t0)/step
        for p in range(n):
            got = (wd[key][p][-1] - at[long])*down
            side = wd[walk.BASE[1 - long]][p]
            side = [min(v, shape[1 - long] - 1 - v) for v in side]
            if min(side) < 3:
                continue        # stopped at the side
            # (within rounding of half way there are two nearest)
            ok = {min(max(int(np.floor(far + .5 + s)), 0), room + 1)
                  for s in (-3*eps*max(1, far), 3*eps*max(1, far))}
            ok |= {min(v, room) for v in ok}
            if far < .5:        # (the first step has to be tried)
                ok.add(1)
            good = got in ok
            if step < .1:       # (no finer than 0.1 s)
                good = good or (abs(min(far, room) - got)*step <= .0501 +
                                eps*(T - t0))
            c.check(good, 'a particle is not at the cell nearest to '
                    'speed times time', particle=p, cells=got, want=ok,
                    target=T, cells_to_go=far, room=room)
            c.count('target_times')
    if D > 0:
        return
    # the time in a reach is its length over the speed
    R = at[long] + down*int(rng.integers(1, max(2, room)))
    # (upstream of R)
    idx = np.arange(shape[long])
    up = (idx - R)*down < 0
    roi = np.zeros(shape, int)
    if long == 0:
        roi[up, :] = 1
    else:
        roi[:, up] = 1
    et = pt.exposure_time(wd, roi)
    rest = pt.exposure_time(wd, 1 - roi)
    for p in range(n):
        far = (wd[key][p][-1] - R)*down
        all_ = wd['travel_times'][p][-1] - t0
        want = (abs(R - at[long]) - .5)*step if far >= 0 else all_
        c.check(abs(et[p] - want) <= eps*(want + step), 'the time spent '
                'upstream is not the length of the reach over the speed',
                particle=p, got=et[p], want=want)
        c.check(abs(rest[p] - (all_ - want)) <= eps*(all_ + step),
                'the time spent downstream', particle=p, got=rest[p],
                want=all_ - want)
        c.count('exposures')
    # each cell on the way takes the same time, each row is crossed by all
    far = [(wd[key][p][-1] - at[long])*down for p in range(n)]
    reach = min(far)
    if reach >= 3:
        mt = pt.nourishment_time(wd, shape, sigma=0, clip=100)
        va = pt.nourishment_area(wd, shape, sigma=0, clip=100)
        rows = [at[long] + down*k for k in range(1, reach)]
        mt = np.asarray(mt if long == 0 else mt.T)[rows]
        va = np.asarray(va if long == 0 else va.T)[rows]
        seen = np.nan_to_num(va) > 0
        c.check(seen.any(1).all(), 'a row that all crossed was not visited')
        c.check(np.all(np.abs(mt[seen] - step) <= 2*eps*step*(
            1 + abs(t0)/step)), 'the mean time in a cell is not its '
                'size over the speed', got=mt[seen], want=step)
        tot = np.nan_to_num(va).sum(1)
        c.check(np.allclose(tot, tot[0], rtol=1e-9), 'not all rows that all '
                'crossed are visited as much', got=tot)
        c.count('cells_of_nourishment', int(seen.sum()))
    if c.idx % 4 == 0:
        # seen from the other side all is the same (state queries)
        k = int(rng.integers(0, max(far) + 1))
        xs, ys, ts = routines.get_time_state(wd, t0 + k*step)[:3]
        pos = xs if long == 0 else ys
        for p in range(n):
            w = min(k, far[p])
            c.check((pos[p] - at[long])*down == w, 'the state at a time is '
                    'not speed times time downstream', particle=p,
                    got=pos[p], want=at[long] + down*w)
        c.count('seen_from_other_side')


def unsteady(c, vr, vc, depth, stage, shape, dx, n, at, ts, k):
    home = os.getcwd()
    place = os.path.join(home, 'c32-%d' % c.idx)
    out = os.path.join(place, 'model')
    os.makedirs(out)
    one = np.ones(shape)
    try:
        for i in range(k):
            np.savez(os.path.join(out, 'data%02d.npz' % i), depth=depth*one,
                     stage=stage*one, qx=vc*depth*one, qy=-vr*depth*one)
        with figs.recorded():
            return routines.unsteady_plots(dx, n, [at[0]], [at[1]], k, ts,
                                           out, 'npz',
                                           os.path.join(place, 'o'))
    finally:
        shutil.rmtree(place, True)


def still(c, how, dx, depth, stage):
    """No flow: all ways are alike."""
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(30, 60, size=2))
    p = build(0., 0., depth, stage, shape, how, rng)
    p.dx = dx
    p.theta = float(rng.choice([0., 1., 2.]))
    p.gamma = float(rng.choice([0., .05, .5]))
    n, k = 40, int(rng.integers(2, 13))
    at = [s//2 for s in shape]
    c.desc = dict(how=how, dx=dx, depth=depth, stage=stage, shape=shape,
                  theta=p.theta, gamma=p.gamma, steps=k, still=True)
    np.random.seed(int(rng.integers(2**31)))
    P = pt.Particles(p)
    P.generate_particles(n, [at[0]], [at[1]])
    at = np.array([at]*n)
    start = at
    obs = np.zeros(9, int)
    for _ in range(k):
        wd = P.run_iteration()
        to = np.array([[x[-1] for x in wd['xinds']],
                       [y[-1] for y in wd['yinds']]]).T
        d = to - at
        c.check(np.abs(d).max() <= 1, 'more than one cell in one iteration')
        obs += np.bincount((d[:, 0] + 1)*3 + d[:, 1] + 1, minlength=9)
        at = to
    e = (at - start).astype(float)
    c.stat(kind='still', obs=obs.tolist(),
           end=[float(e[:, 0].sum()), float(e[:, 1].sum()),
                float((e**2).sum())], n=n, k=k)
    c.count('still_moves', n*k)
    c.sig(wd['xinds'], wd['yinds'])


LIM = 7.5


def finalize(m):
    m.extra = {}
    d = [s for s in m.stats if s['kind'] == 'dispersion']
    if d:
        n = sum(s['n'] for s in d)
        mean = sum(s['s'] for s in d)
        m2 = sum(s['s2'] for s in d)
        z1 = mean/np.sqrt(n/12.)
        z2 = (m2 - n/12.)/np.sqrt(n*(1/80. - 1/144.))
        m.extra['dispersion'] = dict(steps=n, z_mean=z1, z_spread=z2)
        if abs(z1) > LIM:
            raise Violation('dispersion makes particles slower or faster on '
                            'average', z=z1, steps=n)
        if abs(z2) > LIM:
            raise Violation('times are not spread evenly over the width of '
                            'the coefficient', z=z2, steps=n)
    for name, sel in (('axis', lambda h: h[1] == 0),
                      ('diagonal', lambda h: h[1] == 1),
                      ('DeltaRCM', lambda h: h[0] == 1),
                      ('other', lambda h: h[0] == 0)):
        d = [s for s in m.stats if s['kind'] == 'sideways' and sel(s['how'])]
        if not d:
            continue
        z = sum(s['s'] for s in d)/np.sqrt(max(1e-9, sum(s['s2']
                                                         for s in d)))
        m.extra['sideways ' + name] = dict(steps=sum(s['n'] for s in d), z=z)
        if abs(z) > LIM:
            raise Violation('particles drift to one side of the flow (%s)'
                            % name, z=z)
    d = [s for s in m.stats if s['kind'] == 'still']
    if d:
        obs = np.sum([s['obs'] for s in d], axis=0)
        n = obs.sum()
        # (all cells around are as deep as that of the particle, which may
        # stay there as well)
        z = (obs - n/9.)/np.sqrt(n*8/81.)
        steps = sum(s['n']*s['k'] for s in d)
        e = np.sum([s['end'] for s in d], axis=0)
        za = e[:2]/np.sqrt(steps*2/3.)
        # squared distances: mean 4/3 k; their variance, k independent steps
        var = sum(s['n']*(s['k']*4 + 16*s['k']*(s['k'] - 1))/9. for s in d)
        zb = (e[2] - steps*4/3.)/np.sqrt(var)
        m.extra['still'] = dict(moves=int(n), z_moves=z.tolist(),
                                z_drift=za.tolist(), z_spread=zb)
        if max(abs(z).max(), abs(za).max()) > LIM:
            raise Violation('without flow the ways are not alike',
                            z_moves=z.tolist(), z_drift=za.tolist())
        if abs(zb) > LIM:
            raise Violation('without flow particles do not spread as in a '
                            'random walk', z=zb)
