"""C10: equivalent descriptions of a flow give identical walks."""
import numpy as np
from vlib import gen, walk
from vlib.boot import pt

N = {'quick': 17500, 'thorough': 250000}
RULE = ('random flows of dyadic numbers (so that equivalent descriptions are '
        'exactly equal) described in all ways; walks from the same random '
        'state are compared, and insufficient sets of inputs have to be '
        'refused. Non-trivial: pairs whose particles moved; distinct by '
        'description and walk.')
MIN = {'pairs': 4000, 'pairs_q_uv': 500, 'pairs_topography': 500,
       'pairs_convention': 500, 'pairs_unknown': 500, 'refused': 300, 'moves_compared': 20000}
ASSUMPTIONS = ['times from discharge and from velocity agree to a relative '
               '2e-8/depth**2, as the division is regularized']


def base(rng):
    """Dyadic arrays in rows and columns: depth, stage, velocities."""
    shape = (int(rng.integers(5, 12)), int(rng.integers(5, 12)))
    d = gen.dyadic(rng, .5, 6, shape, 3)
    style = int(rng.integers(4))
    if style == 1:
        d[rng.random(shape) < .25] = 0.
    elif style == 2:
        d[rng.random(shape) < .5] = 0.
    s = gen.dyadic(rng, 0, 4, shape, 3)
    if rng.random() < .15:      # high up, or far below the datum
        s += float(rng.choice([-1024, -256, 512, 4096]))
    vr, vc = gen.dyadic(rng, -3, 3, (2,) + shape, 3)
    if rng.random() < .3:
        vr[:], vc[:] = gen.dyadic(rng, -2, 2, 2, 2)
    vr[d == 0] = 0.
    vc[d == 0] = 0.
    shallow = rng.random() < .15
    if shallow:     # (hardly any water, but exact)
        d[rng.random(shape) < .3] = 2.**-rng.integers(5, 13)
    # flow that is unknown, in one or both components, counts as none
    unknown = np.zeros((2,) + shape, bool)
    if rng.random() < .4:
        m = rng.random(shape) < .15
        k = int(rng.integers(3))
        unknown[k if k < 2 else slice(None), m] = True
        vr[unknown[0]] = 0.
        vc[unknown[1]] = 0.
    return d, s, vr, vc, unknown, shallow


def describe(d, s, vr, vc, water, flow, conv, unknown=None):
    """modelParams arrays of one description."""
    a = {}
    if water == 'depth_stage':
        a['depth'], a['stage'] = d.copy(), s.copy()
    elif water == 'depth_topo':
        a['depth'], a['topography'] = d.copy(), s - d
    elif water == 'stage_topo':
        a['stage'], a['topography'] = s.copy(), s - d
    elif water == 'stage_topo_high':    # dry ground rises out of the water
        a['stage'] = s.copy()
        a['topography'] = s - d + np.where(d == 0, 1.5, 0.)
    elif water == 'all':
        a['depth'], a['stage'], a['topography'] = d.copy(), s.copy(), s - d
    elif water == 'nan':
        a['depth'] = np.where(d == 0, np.nan, d)
        a['stage'] = np.where(d == 0, np.nan, s)
    r, c = (vr*d, vc*d) if flow == 'q' else (vr.copy(), vc.copy())
    if unknown is not None:
        r[unknown[0]] = np.nan
        c[unknown[1]] = np.nan
    x, y = (r, c) if conv == 'DeltaRCM' else (c, -r)
    n = ('qx', 'qy') if flow == 'q' else ('u', 'v')
    a[n[0]], a[n[1]] = x, y
    return a


WATER = ['depth_stage', 'depth_topo', 'stage_topo', 'stage_topo_high', 'all',
         'nan']


def build(a, opts, conv):
    p = pt.modelParams()
    for k, v in a.items():
        setattr(p, k, v.copy())
    for k, v in opts.items():
        setattr(p, k, v.copy() if isinstance(v, np.ndarray) else v)
    if conv == 'DeltaRCM':
        p.model = 'DeltaRCM'
    elif conv == 'none':
        p.model = None
    elif conv != 'absent':
        p.model = conv
    return pt.Particles(p)


def case(c):
    rng = c.rng
    d, s, vr, vc, unknown, shallow = base(rng)
    opts = dict(dx=float(rng.choice([1., 10., 50.])))
    if rng.random() < .6:
        opts['theta'] = float(rng.choice([0., 1., 2.]))
    if rng.random() < .7:
        opts['gamma'] = float(rng.choice([0., .05, .5, 1.]))
    if rng.random() < .4:
        opts['diff_coeff'] = float(rng.choice([0., .5, 1.]))
    if rng.random() < .3:
        opts['steepest_descent'] = True
    if rng.random() < .3:
        opts['dry_depth'] = [.25, 0., 2.**-11][int(rng.integers(3))]
    if rng.random() < .4:
        ct = np.zeros(d.shape, int)
        ct[d == 0] = 2
        ct[-1, :] = -1
        opts['cell_type'] = ct
    if c.idx % 6 == 5:
        return refused(c, d, s, vr, vc, opts)
    c.desc = dict(depth=d, stage=s, vr=vr, vc=vc, options=opts)
    n = gen.size(rng, 1, 9, 150, .01)
    cells = [(int(rng.integers(1, d.shape[0] - 1)),
              int(rng.integers(1, d.shape[1] - 1))) for _ in range(n)]
    steps = gen.size(rng, 3, 14, 200, .01)

    def run(a, conv, seed):
        P = build(a, opts, conv)
        np.random.seed(seed)
        P.generate_particles(n, [x[0] for x in cells], [x[1] for x in cells],
                             method='exact')
        for _ in range(steps):
            P.run_iteration()
        return walk.snap(P.walk_data)

    def pair(A, B, what, time_tol):
        nan = [unknown if rng.random() < .7 else None for _ in range(2)]
        a = describe(d, s, vr, vc, *A, nan[0])
        b = describe(d, s, vr, vc, *B, nan[1])
        if unknown.any() and (nan[0] is None) != (nan[1] is None):
            c.count('pairs_unknown')
        bad = None
        for attempt in range(3):
            seed = int(rng.integers(2**31))
            wa, wb = run(a, A[2], seed), run(b, B[2], seed)
            bad = walk.same_walk(wa, wb, ('xinds', 'yinds'))
            if bad is None:
                break
        c.check(bad is None, 'equivalent descriptions (%s) give different '
                'walks: %s' % (what, bad), a=A, b=B)
        k = 0
        for p in range(n):
            ta = np.array(wa['travel_times'][p], float)
            tb = np.array(wb['travel_times'][p], float)
            # (errors of all steps add up; so relative to the present time;
            # and across the flow, rounding of the angle is all there is)
            i, j = np.array(wa['xinds'][p]), np.array(wa['yinds'][p])
            v = np.maximum(np.hypot(vr, vc)[i, j], 1e-8)
            inv = 1.5*opts['dx']*.5*(1/v[:-1] + 1/v[1:])
            ab = np.append(0, np.cumsum(inv*(4e-15 + 1e-15/v[:-1]
                                             + time_tol*3e-8/v[:-1])))
            c.check(np.all(np.abs(ta - tb) <= time_tol*np.abs(ta) + ab),
                    'equivalent descriptions (%s) give different times'
                    % what, a=A, b=B, particle=p, times=(ta, tb))
            k += len(ta) - 1
        c.count('pairs')
        c.count('pairs_' + what)
        c.count('moves_compared', k)
        if k:
            c.sig(A, B, wa['xinds'], wa['yinds'])
        c.sample(dict(a=A, b=B, path=list(zip(wa['xinds'][0],
                                              wa['yinds'][0]))))

    W = ['depth_stage'] + WATER
    w1, w2 = W[int(rng.integers(len(W)))], WATER[int(rng.integers(6))]
    f = ['q', 'uv'][int(rng.integers(2))]
    conv = ['DeltaRCM', 'absent', 'none', 'Anuga'][int(rng.integers(4))]
    if w1 != w2:
        pair((w1, f, conv), (w2, f, conv), 'topography', 1e-12)
    if not shallow:     # (the division is regularized)
        pair((w1, 'q', conv), (w1, 'uv', conv), 'q_uv', 2e-8/.5**2 + 1e-12)
    other = ['absent', 'none', 'Anuga', 'delta'][int(rng.integers(4))]
    pair((w2, f, 'DeltaRCM'), (w2, f, other), 'convention', 1e-12)


def refused(c, d, s, vr, vc, opts):
    rng = c.rng
    kind = int(rng.integers(7))
    flow = ['q', 'uv'][int(rng.integers(2))]
    conv = ['DeltaRCM', 'absent', 'none'][int(rng.integers(3))]
    a = describe(d, s, vr, vc, 'all', flow, conv)
    o = dict(opts)
    what = None
    if kind == 0:
        del o['dx']
        what = 'no dx'
    elif kind in (1, 2):
        keep = [('depth',), ('stage',), ('topography',), ()][
            int(rng.integers(4))]
        for k in ('depth', 'stage', 'topography'):
            if k not in keep:
                del a[k]
        what = 'water only by %s' % (keep,)
    elif kind in (3, 4):
        k = [x for x in ('qx', 'qy', 'u', 'v') if x in a][
            int(rng.integers(2))]
        del a[k]
        what = 'flow without ' + k
    elif kind == 5:
        for k in ('qx', 'qy', 'u', 'v'):
            a.pop(k, None)
        what = 'no flow'
    else:
        # one component of each
        a2 = describe(d, s, vr, vc, 'all', 'uv' if flow == 'q' else 'q',
                      conv)
        n1 = [x for x in ('qx', 'qy', 'u', 'v') if x in a]
        n2 = [x for x in ('qx', 'qy', 'u', 'v') if x in a2]
        i = int(rng.integers(2))
        del a[n1[i]]
        a[n2[i]] = a2[n2[i]]
        what = 'one component of discharge, one of velocity'
    c.desc = dict(missing=what, conv=conv, given=sorted(a))
    try:
        build(a, o, conv)
    except ValueError:
        pass
    else:
        c.fail('insufficient information was accepted: ' + what, conv=conv,
               given=sorted(a))
    c.check(True, '')
    c.count('refused')
    c.sig(what, conv, d)
