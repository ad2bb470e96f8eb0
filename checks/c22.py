"""C22: states at an iteration, or at a time."""
import re
import numpy as np
from vlib import gen, hist, walk
from vlib.boot import routines

N = {'quick': 30000, 'thorough': 500000}
RULE = ('walk data made up (histories of different length, equal times, '
        'other variables in any order) and from runs; states at random '
        'iterations and times (also exactly at, between, before and after '
        'recorded ones) are compared with the entries, and messages are '
        'read. Distinct by walk and query.')
MIN = {'iteration_queries': 15000, 'time_queries': 15000, 'short': 10000,
       'never_reached': 10000, 'ties': 1000, 'messages': 10000}


def unpack(c, res, wd):
    names = [k for k in wd if k not in walk.BASE]
    c.check(isinstance(res, tuple) and len(res) == (4 if names else 3),
            'form of the result', n=len(res))
    out = dict(zip(walk.BASE, res[:3]))
    if names:
        c.check(set(res[3]) == set(names), 'other variables',
                got=list(res[3]), want=names)
        out.update(res[3])
    n = len(wd['xinds'])
    for k, v in out.items():
        c.check(len(v) == n, 'one entry per particle', variable=k, got=len(v))
    return out


def case(c):
    rng = c.rng
    if rng.random() < .05:
        sc, ref, wd = hist.real(rng, extra=True)
    else:
        shape = (int(rng.integers(1, 15)), int(rng.integers(1, 15)))
        extra = [['depth'], ['qx', 'u', 'roi_flag'], None, ['xcoord',
                 'ycoord'], ['stage']][int(rng.integers(5))]
        wd = hist.synthetic(rng, shape, extra=extra, dt=[
            'mixed', 'dyadic'][int(rng.integers(2))])
        if extra and rng.random() < .2:
            k = extra[0]
            for p in range(len(wd[k])):
                wd[k][p][0] = None
        if rng.random() < .2:
            # any order of the variables
            k = list(wd)
            rng.shuffle(k)
            wd = {str(q): wd[str(q)] for q in k}
    old = walk.snap(wd)
    n = len(wd['xinds'])
    L = [len(x) for x in wd['xinds']]
    c.desc = dict(walk_data=wd)
    for _ in range(5):
        r = rng.random()
        kw = {}
        if r < .1:
            it = -1
        elif r < .25:
            it = -int(rng.integers(1, (min(L) if rng.random() < .5 else
                                       max(L) + 2) + 1))
        else:
            it = int(rng.integers(0, max(L) + 3))
        given = [it, np.int64(it), float(it)][int(rng.integers(3))]
        with hist.logged() as rec:
            res = routines.get_state(wd) if it == -1 and rng.random() < .5 \
                else routines.get_state(wd, given)
        out = unpack(c, res, wd)
        short = 0
        for p in range(n):
            k = it if -L[p] <= it < L[p] else -1
            short += not -L[p] <= it < L[p]
            for v in out:
                c.check(walk.same(out[v][p], wd[v][p][k]), 'entry of '
                        'iteration %d' % it, variable=v, particle=p,
                        got=out[v][p], want=wd[v][p][k])
        nums = [re.findall(r'\d+', m) for lv, m in rec]
        if short:
            c.check(len(nums) == 1 and nums[0] and int(nums[0][0]) == short,
                    'message on particles that fell short', messages=rec,
                    short=short, iteration=it)
            c.count('messages')
        else:
            c.check(not rec, 'a message though none fell short',
                    messages=rec)
        c.count('short', short)
        c.count('iteration_queries')
        c.sig(wd['xinds'], wd['travel_times'], it)
    T = np.concatenate([np.array(t, float) for t in wd['travel_times']])
    for _ in range(5):
        r = rng.random()
        if r < .3:
            t = float(rng.choice(T))
        elif r < .5:
            t = float(rng.choice(T) + rng.choice(T))/2
        elif r < .9:
            t = float(rng.uniform(-.1, 1.2)*(T.max() + 1))
        else:
            t = int(rng.choice(T))
        with hist.logged() as rec:
            res = routines.get_time_state(wd, t)
        out = unpack(c, res, wd)
        never = []
        for p in range(n):
            d = np.abs(np.array(wd['travel_times'][p], float) - t)
            k = np.flatnonzero(d <= d.min()*(1 + 1e-12))
            if len(k) > 1:
                c.count('ties')
            c.check(any(all(walk.same(out[v][p], wd[v][p][j]) for v in out)
                        for j in k), 'not the entry with the time nearest '
                    'to %r' % t, particle=p, got={v: out[v][p] for v in out},
                    want={v: wd[v][p][k[0]] for v in out})
            if wd['travel_times'][p][-1] < t:
                never.append(p)
        got = sorted(int(re.findall(r'\d+', m)[0]) for lv, m in rec
                     if re.search(r'\d', m)) if len(rec) != 1 else \
            hist_named(rec[0][1])
        c.check(got == never, 'messages on particles that never reached the '
                'time', messages=rec, want=never)
        c.count('messages', len(rec))
        c.count('never_reached', len(never))
        c.count('time_queries')
        c.sig(wd['xinds'], wd['travel_times'], t)
    c.check(walk.same_walk(old, wd) is None and list(old) == list(wd),
            'walk data were changed')
    c.sample(dict(lengths=L, variables=list(wd)))


def hist_named(m):
    b = re.findall(r'\[([^\]]*)\]', m)
    return sorted(int(v) for v in re.findall(r'\d+', b[-1] if b else m))
