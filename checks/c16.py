"""C16: exposure times to a region."""
import numpy as np
from vlib import gen, hist, walk
from vlib.boot import pt

N = {'quick': 48000, 'thorough': 500000}
RULE = ('walk data made up (several visits, steps of no time, single '
        'entries) and from runs; random regions. Times are recomputed step '
        'by step, added to those of the rest of the domain, and compared '
        'with those of each particle alone and in another order; messages '
        'are read. Non-trivial: particles that were in and out; distinct by '
        'walk and region.')
MIN = {'particles': 20000, 'visited_more_than_once': 2000,
       'still_inside': 3000, 'messages': 2000, 'no_message': 500,
       'runs': 200}
ASSUMPTIONS = ['regions consist of integers 0 and 1']


def region(rng, shape):
    r = rng.random()
    if r < .5:
        roi = gen.make_roi(rng, shape)
    elif r < .8:
        roi = np.zeros(shape, int)
        i, j = np.sort(rng.integers(0, shape[0] + 1, 2)), \
            np.sort(rng.integers(0, shape[1] + 1, 2))
        roi[i[0]:i[1], j[0]:j[1]] = 1
    elif r < .9:
        roi = np.indices(shape).sum(0) % 2
    else:
        roi = np.zeros(shape, int)
        roi[int(rng.integers(shape[0])), int(rng.integers(shape[1]))] = 1
    return roi.astype([int, int, np.int32, np.uint8][int(rng.integers(4))])


def close(c, a, b, scale, msg, **kw):
    a, b, s = np.asarray(a, float), np.asarray(b, float), np.asarray(scale)
    ok = np.abs(a - b) <= 1e-10*s
    c.check(a.shape == b.shape and ok.all(), msg, got=a, want=b, **kw)


def case(c):
    rng = c.rng
    if rng.random() < .1:
        sc, ref, wd = hist.real(rng, extra=True)
        shape = sc.shape
        c.count('runs')
    else:
        shape = (int(rng.integers(1, 15)), int(rng.integers(1, 15)))
        wd = hist.synthetic(rng, shape, extra=['depth'] if rng.random() < .2
                            else None)
    roi = region(rng, shape)
    n = len(wd['xinds'])
    c.desc = dict(walk_data=wd, roi=roi)
    old, oroi = walk.snap(wd), roi.copy()
    with hist.logged() as rec:
        got = pt.exposure_time(wd, roi)
    c.check(walk.same_walk(old, wd) is None and np.array_equal(roi, oroi),
            'the inputs were changed')
    c.check(isinstance(got, list) and len(got) == n, 'one time for each '
            'particle', n=n, got=got)
    want, full = hist.exposure(wd, roi)
    # (rounding errors of all the terms)
    scale = np.array(full)*np.array([len(x) for x in wd['xinds']]) + 1e-300
    close(c, got, want, scale, 'exposure times')
    c.check(min(got, default=0) >= 0, 'a negative exposure time')
    # the rest of the domain
    rest = pt.exposure_time(wd, 1 - roi.astype(int))
    total = [t[-1] - t[0] for t in wd['travel_times']]
    close(c, np.add(got, rest), total, scale, 'exposure times to the region '
          'and the rest do not sum to the time traveled')
    # each alone, and in another order
    p = int(rng.integers(n))
    alone = pt.exposure_time(hist.permuted(wd, [p]), roi)
    c.check(alone == [got[p]], 'the time of a particle depends on others',
            particle=p, alone=alone, among=got[p])
    order = [int(v) for v in rng.permutation(n)]
    again = pt.exposure_time(hist.permuted(wd, order), roi)
    c.check(again == [got[q] for q in order], 'times depend on the order of '
            'the particles')
    # the message
    inside = [q for q in range(n) if len(wd['xinds'][q]) > 1 and
              roi[wd['xinds'][q][-1], wd['yinds'][q][-1]] == 1]
    # (those that never moved may be named or not)
    still = [q for q in range(n) if len(wd['xinds'][q]) == 1 and
             roi[wd['xinds'][q][0], wd['yinds'][q][0]] == 1]
    text = [m for lv, m in rec if lv == 'INFO']
    if inside:
        c.check(len(text) == 1, 'one message on particles inside at the end',
                messages=text, inside=inside)
        got_n = hist.named(text[0])
        c.check(set(inside) <= set(got_n) <= set(inside + still) and
                len(set(got_n)) == len(got_n), 'the message does not name '
                'the particles that are inside at the end', message=text[0],
                inside=inside)
        first = [int(s) for s in text[0].split() if s.isdigit()]
        c.check(not first or first[0] == len(got_n), 'the number in the '
                'message is wrong', message=text[0])
        c.count('messages')
        c.count('still_inside', len(inside))
    elif not still:
        c.check(not text, 'a message without particles inside at the end',
                messages=text)
        c.count('no_message')
    visits = 0
    for X, Y in zip(wd['xinds'], wd['yinds']):
        f = [int(roi[x, y]) for x, y in zip(X, Y)]
        k = sum(1 for a, b in zip([0] + f, f) if b > a)
        visits += k > 1
    c.count('particles', n)
    c.count('visited_more_than_once', visits)
    if any(0 < g < t for g, t in zip(got, total)):
        c.sig(wd['xinds'], wd['yinds'], roi)
        c.sample(dict(particles=n, region_cells=int(roi.sum()),
                      exposure_times=got[:5]))
