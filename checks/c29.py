"""C29: resuming a saved run."""
import copy
import json
import pickle
import numpy as np
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 21000, 'thorough': 150000}
RULE = ('runs of random operations (iterations, target times, more '
        'particles, other flow fields), interrupted at random points, where '
        'the walk data are written as JSON and loaded into a new object, or '
        'the object is copied or pickled whole; '
        'compared with the uninterrupted run. Non-trivial: particles moved '
        'after an interruption; distinct by walk.')
MIN = {'interruptions': 3000, 'moves_after': 11000, 'target_runs_after': 1500,
       'tracked_values': 10000, 'other_flow': 200, 'more_particles': 500,
       'copied_whole': 800, 'copies_left': 800}


def long_past(rng, sc, ref):
    """One particle which has been going to and fro for thousands of
    steps."""
    a = gen.seed_cells(rng, sc, 1, 'wet', ref)
    k = int(rng.integers(1500, 12000))
    i, j = int(a[0][0]), int(a[1][0])
    i2 = i - 1 if i > 0 else i + 1
    t = np.cumsum(rng.uniform(.1, 2, k)).tolist()
    out = {'xinds': [[i, i2]*(k//2) + [i]*(k % 2)], 'yinds': [[j]*k],
           'travel_times': [t]}
    names = list(sc.options.get('particle_variables', []))
    if 'roi_grid' in sc.options and 'roi_flag' not in names:
        names.append('roi_flag')
    for q in names:
        out[q] = [[float(v) for v in rng.integers(0, 2, k)]]
    return out


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4, hi=14))
    if 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    other = None
    if rng.random() < .3:
        other = gen.scenario(rng, shape=sc.shape)
        for k in ('particle_variables', 'roi_grid'):
            if k in sc.options:
                other.options[k] = sc.options[k]
        if rng.random() < .3:
            other.options.pop('particle_variables', None)
            if 'roi_grid' not in other.options or rng.random() < .5:
                other.options['particle_variables'] = ['depth', 'v']
        other.options['dx'] = sc.options['dx']
    n = gen.size(rng, 1, 7, 150, .01)
    xs, ys = gen.seed_cells(rng, sc, n, 'wet', ref)
    t = float(rng.choice([0., 0., 0., 0., -20., 5.]))
    ops, flow = [('gen', n, xs, ys, 'exact', t)], False
    past = long_past(rng, sc, ref) if rng.random() < .01 else None
    v = np.median(ref.speed) + 1e-3
    for _ in range(gen.size(rng, 3, 9, 60, .01)):
        r = rng.random()
        if r < .1:
            a, b = gen.seed_cells(rng, sc, 2, 'wet', ref)
            ops.append(('gen', int(rng.integers(1, 4)), a, b, [
                'random', 'exact'][int(rng.integers(2))]))
        elif r < .2 and other is not None and not flow:
            ops.append(('flow',))
            flow = True
        elif r < .65:
            ops.append(('step',))
        else:
            t += float(rng.uniform(.2, 6))*ref.dx/v
            ops.append(('target', t, gen.size(rng, 1, 24, 400, .01)))
    breaks = [rng.random() < .45 for _ in ops]
    breaks[0] = False
    whole = [bool(b and o[0] != 'flow' and rng.random() < .3)
             for b, o in zip(breaks, ops)]
    s = int(rng.integers(2**31))
    c.desc = dict(sc.describe(), ops=ops, breaks=breaks, whole=whole)

    def run(interrupt):
        np.random.seed(s)
        cur = sc
        P = pt.Particles(cur.params())
        log, left = [], []
        for o, brk, wh in zip(ops, breaks, whole):
            data = None
            if wh and interrupt:
                st = np.random.get_state()
                left.append((P, walk.snap(P.walk_data)))
                P = copy.deepcopy(P) if len(left) % 2 else \
                    pickle.loads(pickle.dumps(P))
                now = np.random.get_state()
                c.check(np.array_equal(st[1], now[1]) and st[2] == now[2],
                        'copying the object uses up random numbers')
            elif o[0] == 'flow':
                cur = other
                data = P.walk_data
                if brk and interrupt:
                    data = saved(P.walk_data)
                P = pt.Particles(cur.params())
            elif brk and interrupt:
                data = saved(P.walk_data)
                P = pt.Particles(cur.params())
            if o[0] == 'gen':
                if data is None and past is not None and not log:
                    data = saved(past) if interrupt else walk.snap(past)
                kw = {} if data is None else dict(previous_walk_data=data)
                if len(o) > 5 and o[5] != 0:
                    kw['seed_time'] = o[5]
                P.generate_particles(o[1], o[2], o[3], method=o[4], **kw)
                if past is not None and not log:
                    bad = walk.same_walk(past, {q: P.walk_data[q][:len(
                        past['xinds'])] for q in past})
                    c.check(bad is None, 'a long history was not taken over '
                            'as it was: %s' % bad)
                    c.count('long_past')
                log.append(walk.snap(P.walk_data))
                continue
            if data is not None:
                st = np.random.get_state()
                P.generate_particles(0, [], [], previous_walk_data=data)
                now = np.random.get_state()
                if interrupt and o[0] != 'flow':
                    c.check(np.array_equal(st[1], now[1]) and
                            st[2] == now[2], 'loading walk data uses up '
                            'random numbers')
            if o[0] == 'step':
                P.run_iteration()
            elif o[0] == 'target':
                P.run_iteration(target_time=o[1], max_iter=o[2])
            log.append(walk.snap(P.walk_data))
        for Q, was in left:
            bad = walk.same_walk(was, Q.walk_data) or \
                walk.same_walk(Q.walk_data, was)
            c.check(bad is None, 'routing a copy of the object changed the '
                    'walk data of the original: %s' % bad)
        c.count('copies_left', len(left))
        return log

    def saved(wd):
        f = json.dumps(wd, default=float)
        return json.loads(f)

    want, got = run(False), run(True)
    first = None
    for k, (a, b) in enumerate(zip(want, got)):
        if breaks[k] and first is None:
            first = k
        bad = walk.same_walk(a, b) or walk.same_walk(b, a)
        c.check(bad is None, 'the run resumed differs from the one not '
                'interrupted, after operation %d (%s): %s'
                % (k, ops[k][0], bad), interrupted_before=[
                    j for j in range(len(ops)) if breaks[j]])
    # what was observed
    c.count('interruptions', sum(breaks))
    c.count('copied_whole', sum(whole))
    if first is not None:
        n0 = walk.lens(want[first - 1])
        m = sum(len(x) for x in want[-1]['xinds']) - sum(n0)
        c.count('moves_after', m)
        c.count('tracked_values', m*(len(want[-1]) - 3))
        c.count('target_runs_after', sum(o[0] == 'target'
                                         for o in ops[first:]))
        c.count('more_particles', sum(o[0] == 'gen' for o in ops[first:]))
        c.count('other_flow', sum(o[0] == 'flow' for o in ops[first:]))
        if m:
            c.sig(want[-1]['xinds'], want[-1]['yinds'], breaks)
            c.sample(dict(ops=[o[0] for o in ops], breaks=breaks,
                          moves_after=m))
