"""C11: inputs are not consumed, and objects do not share what changes."""
import copy
import numpy as np
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 21000, 'thorough': 250000}
RULE = ('random domains and options; objects are built from the same and '
        'from fresh copies of the parameters, seeded and moved in random '
        'order; grids, options and walks are compared. Non-trivial: cases '
        'in which particles moved; distinct by domain and walk.')
MIN = {'inputs_compared': 10000, 'grids_compared': 20000,
       'second_objects': 2000, 'interleaved': 800, 'with_missing': 300,
       'set_anew': 2000}

FIELDS = ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'velocity',
          'velocity_angle', 'cell_type')


def grids(P):
    """The grids an object shows (by whatever names of these it has)."""
    return [k for k in FIELDS if hasattr(P, k)]


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(
        a.astype(float), b.astype(float), equal_nan=True)


def inputs_kept(c, sc, p, when):
    """Grids as given, but for missing values; options as given."""
    ref = Ref(sc)
    for k, a in sc.arrays.items():
        now = getattr(p, k)
        c.check(now.shape == a.shape, 'an input changed shape', name=k)
        was, now = a.astype(float), np.asarray(now, float)
        same = (now == was) | (np.isnan(now) & np.isnan(was))
        if k == 'stage':    # undefined where there is no water
            same |= np.isnan(now) & (ref.depth == 0)
        elif k != 'topography':
            same |= np.isnan(was) & (now == 0)
        if np.isnan(was).any():
            c.count('with_missing')
        c.check(same.all(), 'an input grid was changed', name=k, when=when,
                at=np.argwhere(~same)[:5], was=was[~same][:5],
                now=now[~same][:5])
        c.count('inputs_compared')
    for k, a in sc.options.items():
        now = getattr(p, k)
        if isinstance(a, np.ndarray):
            c.check(eq(a, now), 'an input grid was changed', name=k,
                    when=when)
        elif k == 'model':
            c.check(now == a or (a is None and not now), 'an option was '
                    'changed', name=k, was=a, now=now)
        else:
            c.check(now == a and type(now) is type(a), 'an option was '
                    'changed', name=k, was=a, now=now, when=when)
        c.count('inputs_compared')


def drive(P, ops, state):
    """Ops under their own random state, which is returned."""
    np.random.set_state(state)
    for o in ops:
        if o[0] == 'gen':
            kw = {'seed_time': o[5]} if o[5] else {}
            P.generate_particles(o[1], o[2], o[3], method=o[4], **kw)
        elif o[0] == 'step':
            P.run_iteration()
        else:
            P.run_iteration(target_time=o[1], max_iter=o[2])
    return np.random.get_state()


def make_ops(rng, sc, ref, where='wet'):
    n = gen.size(rng, 1, 6, 150, .01)
    xs, ys = gen.seed_cells(rng, sc, n, where, ref)
    ops = [('gen', n, xs, ys, 'exact', [0, 0, 2.5][int(rng.integers(3))])]
    t = 0.
    for _ in range(gen.size(rng, 2, 8, 60, .01)):
        r = rng.random()
        if r < .15:
            xs, ys = gen.seed_cells(rng, sc, 2, where, ref)
            ops.append(('gen', 3, xs, ys, 'random',
                        [0, 7][int(rng.integers(2))]))
        elif r < .7:
            ops.append(('step',))
        else:
            t += float(rng.uniform(0, 6))*ref.dx/(ref.speed.mean() + 1e-3)
            ops.append(('target', t, int(rng.integers(1, 20))))
    return ops


def another_option(c, sc, p, ops, s0):
    """An option (or a grid) set anew, with all else as it is."""
    rng = c.rng
    sc2 = gen.Scenario()
    sc2.arrays, sc2.options, sc2.kind = dict(sc.arrays), dict(sc.options), \
        sc.kind
    k = ['theta', 'gamma', 'diff_coeff', 'dry_depth', 'steepest_descent',
         'flow', 'dx', 'cell_type'][int(rng.integers(8))]
    if k == 'flow':
        for q in ('qx', 'qy', 'u', 'v'):
            if q in sc.arrays:
                a = sc.arrays[q]
                sc2.arrays[q] = np.ascontiguousarray(a[::-1, ::-1])*2
                setattr(p, q, sc2.arrays[q].copy())
    elif k == 'steepest_descent':
        sc2.options[k] = not sc.options.get(k, False)
        setattr(p, k, sc2.options[k])
    elif k == 'cell_type':
        ct = np.zeros(sc.shape, int)
        ct[:, 0] = -1
        sc2.options[k] = ct
        setattr(p, k, ct.copy())
    else:
        sc2.options[k] = {'theta': 2.5, 'gamma': .77, 'diff_coeff': .6,
                          'dry_depth': .3, 'dx': 17.}[k]
        setattr(p, k, sc2.options[k])
    P3 = pt.Particles(p)
    F = pt.Particles(sc2.params())
    np.random.seed(5)
    try:
        drive(F, ops, s0)
    except Exception:
        return
    drive(P3, ops, s0)
    bad = walk.same_walk(F.walk_data, P3.walk_data)
    c.check(bad is None, 'an object from parameters of which one was set '
            'anew walks differently from one from fresh parameters: %s'
            % bad, option=k, ops=ops)
    c.count('set_anew')
    for q, v in list(sc.options.items()) + list(sc.arrays.items()):
        setattr(p, q, v.copy() if isinstance(v, np.ndarray) else v)
    if k not in sc.options and hasattr(p, k):
        delattr(p, k)


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(
        rng, lo=4, nan=True if rng.random() < .4 else None,
        flow='tiny' if rng.random() < .1 else None))
    if 'cell_type' in sc.options and rng.random() < .7:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    if rng.random() < .1:       # (that of the own cell is of no use)
        r = 2**.5
        sc.options['distances'] = np.array([[r, 1, r], [1, 2., 1],
                                            [r, 1, r]])
    ref = Ref(sc)
    c.desc = sc.describe()
    ops = make_ops(rng, sc, ref)
    np.random.seed(int(rng.integers(2**31)))
    s0 = np.random.get_state()

    # as it should be: parameters of its own, nothing else going on
    A = pt.Particles(sc.params())
    drive(A, ops, s0)
    want = walk.snap(A.walk_data)

    # shared parameters
    p = sc.params()
    P1 = pt.Particles(p)
    inputs_kept(c, sc, p, 'after building')
    f1 = {k: np.array(getattr(P1, k)) for k in grids(P1)}
    early = rng.random() < .5
    if early:
        P2 = pt.Particles(p)
    s1 = s0
    half = len(ops)//2
    s1 = drive(P1, ops[:half], s1)
    if not early:
        P2 = pt.Particles(p)
    inputs_kept(c, sc, p, 'after building another')
    for k in f1:
        c.check(eq(f1[k], getattr(P2, k)), 'another object from the same '
                'parameters differs', name=k)
        c.count('grids_compared')
    if rng.random() < .6:
        # another one moves in between
        other = make_ops(rng, sc, ref)
        np.random.seed(int(rng.integers(2**31)))
        drive(P2, other, np.random.get_state())
        moved2 = True
        c.count('interleaved')
    else:
        moved2 = False
    drive(P1, ops[half:], s1)
    bad = walk.same_walk(want, P1.walk_data)
    c.check(bad is None, 'an object walks differently as there is another: '
            '%s' % bad, ops=ops)
    if moved2:
        P2.clear_walk_data()
    drive(P2, ops, s0)
    bad = walk.same_walk(want, P2.walk_data)
    c.check(bad is None, 'another object from the same parameters walks '
            'differently: %s' % bad, ops=ops)
    c.count('second_objects')
    for P in (P1, P2):
        for k in f1:
            c.check(eq(f1[k], getattr(P, k)), 'routing changed a grid',
                    name=k)
            c.count('grids_compared')
    inputs_kept(c, sc, p, 'after routing')
    # the same object again
    P1.clear_walk_data()
    drive(P1, ops, s0)
    bad = walk.same_walk(want, P1.walk_data)
    c.check(bad is None, 'an object walks differently after being cleared: '
            '%s' % bad, ops=ops)
    another_option(c, sc, p, ops, s0)
    # new arrays in the parameters are for later objects only
    if rng.random() < .4:
        sc2 = gen.scenario(rng, shape=sc.shape)
        for k in ('depth', 'stage', 'qx', 'qy', 'u', 'v', 'topography'):
            if k in sc2.arrays:
                setattr(p, k, sc2.arrays[k].copy())
        for k in f1:
            c.check(eq(f1[k], getattr(P2, k)), 'an object changed along '
                    'with the parameters', name=k)
        c.count('new_flow')
    if any(len(x) > 1 for x in want['xinds']):
        c.sig(sc.kind, want['xinds'], want['yinds'])
        c.sample(dict(kind=sc.kind, ops=ops))
