"""C34: failures during a run."""
import os
import shutil
import warnings
import matplotlib.figure
import numpy as np
from vlib import faults, figs, gen, walk
from vlib.boot import pt, pr, routines
from vlib.ref import Ref

N = {'quick': 6000, 'thorough': 150000}
CHUNK = 10
RULE = ('random domains and operations; the k-th draw of a random number, the '
        'k-th figure saved, a warning made an error, or an iteration in one '
        'or all worker processes fails, k at random; the histories left are '
        'compared with those of a twin that was not disturbed. Non-trivial: '
        'the failure came; distinct by walk, kind and k.')
MIN = {'failures': 2000, 'failed_steps': 300, 'failed_targets': 800,
       'failed_seedings': 200, 'continued': 600,
       'failed_figures': 150, 'failed_workers': 50, 'failed_warnings': 100}
ASSUMPTIONS = ['failures come from what the code calls; one which comes '
               'between any two of its statements (as by a signal) is not '
               'injected']
KINDS = [KeyboardInterrupt, MemoryError, RuntimeError, FloatingPointError,
         ValueError, OSError]


def prefix(a, b):
    """None if all histories of a are beginnings of those of b."""
    for q in b:
        if q not in a:
            return 'no %s' % q
        if len(a[q]) != len(b[q]):
            return '%s: %d and %d particles' % (q, len(a[q]), len(b[q]))
        for i, (x, y) in enumerate(zip(a[q], b[q])):
            if not walk.same_list(x, y[:len(x)]):
                return '%s of particle %d: %s / %s' % (
                    q, i, list(x)[-3:], list(y)[:len(x)][-3:])
    return None


def total(wd):
    return 0 if wd is None else sum(len(x) for x in wd['xinds'])


def left(c, P, tracked, before, after, kind):
    """What is left by a failure."""
    wd = P.walk_data
    if before is None:
        c.check(wd is None, 'there are particles after a failed seeding')
        return
    c.check(wd is not None, 'the particles are gone after a failure')
    bad = walk.aligned(wd, tracked)
    c.check(bad is None, 'after a failure (%s), histories are not aligned: %s'
            % (kind, bad))
    bad = prefix(before, wd)
    c.check(bad is None, 'a failure (%s) changed what had been recorded: %s'
            % (kind, bad))
    bad = prefix(wd, after)
    c.check(bad is None, 'before a failure (%s), other steps were taken than '
            'without: %s' % (kind, bad))
    c.check(P.Np_tracer in (0, len(wd['xinds'])), 'the number of particles '
            'is wrong after a failure', n=P.Np_tracer)


def caught(c, exc, f):
    """f() has to raise exc, itself."""
    try:
        f()
    except BaseException as e:
        if e is not exc:
            if not isinstance(e, Exception) and \
                    not isinstance(e, KeyboardInterrupt):
                raise           # a verdict, not a failure
            c.fail('a failure reached the caller as another: %r for %r'
                   % (e, exc))
        return
    c.fail('a failure was hidden: %r' % exc)


def case(c):
    rng = c.rng
    r = c.idx % 40
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4, hi=13))
    if 'cell_type' in sc.options:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    tracked = list(sc.options.get('particle_variables', []))
    if 'roi_grid' in sc.options and 'roi_flag' not in tracked:
        tracked.append('roi_flag')
    n = gen.size(rng, 1, 9, 120, .02)
    xs, ys = gen.seed_cells(rng, sc, n, 'wet', ref)
    v = np.median(ref.speed) + 1e-3
    s = int(rng.integers(2**31))
    past = [('step',) if rng.random() < .5 else
            ('target', float(rng.uniform(.2, 5))*ref.dx/v, 30)
            for _ in range(int(rng.integers(0, 4)))]
    exc = KINDS[int(rng.integers(len(KINDS)))]('failure %d' % c.idx)
    c.desc = dict(sc.describe(), xs=xs, ys=ys, past=past, failure=repr(exc))

    def do(P, o):
        if o[0] == 'step':
            return P.run_iteration()
        if o[0] == 'target':
            return P.run_iteration(target_time=o[1], max_iter=o[2])
        return P.generate_particles(o[1], o[2], o[3], method=o[4],
                                    seed_time=o[5])

    def fresh(cls=pt.Particles):
        P = cls(sc.params())
        np.random.seed(s)
        P.generate_particles(n, xs, ys, method='exact')
        for o in past:
            do(P, o)
        return P

    if r == 39:
        return workers(c, sc, fresh, tracked, xs, ys, exc)
    if r >= 36:
        return figures(c, sc, fresh, tracked, exc)
    if r == 35:
        return outside(c, fresh, tracked, sc, xs, ys)
    if r >= 32:
        return warned(c, fresh, tracked, xs, ys, v, ref)

    k = int(rng.integers(8))
    if k < 2:
        op = ('step',)
    elif k < 7:
        clock = 0 if not past else past[-1][1] if past[-1][0] == 'target' \
            else 2*ref.dx/v
        op = ('target', clock + float(rng.uniform(.5, 9))*ref.dx/v,
              int(rng.choice([5, 60, 300, 300, 300])))
    else:
        a, b = gen.seed_cells(rng, sc, int(rng.integers(1, 4)), 'wet', ref)
        op = ('gen', int(rng.integers(1, 7)), a, b, 'random',
              float(rng.choice([0., 0., 3.])))
    none = op[0] == 'gen' and rng.random() < .3
    c.desc['failed'] = op

    def start():
        if not none:
            return fresh()
        P = pt.Particles(sc.params())
        np.random.seed(s)
        return P

    # the twin, with the state before each draw
    P2 = start()
    before = walk.snap(P2.walk_data)
    s0 = np.random.get_state()
    states = []

    def note():
        states.append((total(P2.walk_data), np.random.get_state()))
    with faults.draws(note):
        do(P2, op)
    after = walk.snap(P2.walk_data)
    if not states:
        c.count('nothing_drawn')
        return
    again = [0]

    def one_more():
        again[0] += 1
    if op[0] == 'target':
        with faults.draws(one_more):
            do(P2, op)
    at = int(rng.integers(1, len(states) + 1))
    c.desc['at'] = at

    # the same with the failure
    P = start()
    c.check(before is None or walk.same_walk(before, P.walk_data) is None,
            'the same run twice differs')
    nth = faults.Nth(at, exc)
    with faults.draws(nth):
        caught(c, exc, lambda: do(P, op))
    c.count('failures')
    c.count({'step': 'failed_steps', 'target': 'failed_targets',
             'gen': 'failed_seedings'}[op[0]])
    if op[0] == 'gen':
        left(c, P, tracked, before, before, op[0])
    else:
        left(c, P, tracked, before, after, op[0])
    m = total(P.walk_data)
    new = m - total(before)
    if new:
        c.count('kept_progress')
        c.count('entries_kept', new)

    # continued from there, with the random numbers that the twin had (there
    # may be draws of particles at an edge, which have no effect)
    sts = [s0]
    if op[0] == 'target':
        sts = [q for t, q in states if t == m][:6]
    # (not if max_iter came in: it counts anew)
    full = op[0] == 'target' and max(
        len(y) - len(x) for x, y in zip(before['xinds'],
                                        after['xinds'])) >= op[2] - 1
    if again[0] == 0 and not full and sts and (op[0] == 'target' or new == 0):
        bad, base = [], walk.snap(P.walk_data)
        for st in sts:
            np.random.set_state(st)
            do(P, op)
            b = walk.same_walk(after, P.walk_data) or \
                walk.same_walk(P.walk_data, after)
            if b is None:
                bad = []
                break
            bad.append(b)
            P = pt.Particles(sc.params())
            P.generate_particles(0, [], [], previous_walk_data=walk.snap(
                base))
        c.check(not bad, 'continued after a failure (%s), the run ends '
                'differently from the one without: %s'
                % (op[0], bad[:1]))
        c.count('continued')
    else:
        do(P, op)
        bad = walk.aligned(P.walk_data, tracked)
        c.check(bad is None, 'continued after a failure, histories are not '
                'aligned: %s' % bad)
        c.count('went_on')
    c.sig(op[0], at, after['xinds'], after['yinds'], type(exc).__name__)
    c.sample(dict(failed=op[0], at_draw=at, of=len(states), kept=new,
                  failure=repr(exc)))


def warned(c, fresh, tracked, xs, ys, v, ref):
    """Warnings made errors."""
    rng = c.rng
    P, P2 = fresh(), None
    before = walk.snap(P.walk_data)
    st = np.random.get_state()
    seeding = rng.random() < .4
    t = float(rng.uniform(4, 30))*ref.dx/v
    m = int(rng.integers(1, 5))
    q = float(rng.choice([-3., 2., 1e3]))

    def do(P):
        if seeding:
            P.generate_particles(3, xs, ys, seed_time=q)
        else:
            P.run_iteration(target_time=t, max_iter=m)
    P2 = fresh()
    np.random.set_state(st)
    do(P2)
    after = walk.snap(P2.walk_data)
    c.desc['op'] = ('gen', q) if seeding else ('target', t, m)
    np.random.set_state(st)
    with warnings.catch_warnings():
        warnings.simplefilter('error', UserWarning)
        try:
            do(P)
        except UserWarning:
            c.count('failures')
            c.count('failed_warnings')
            c.sig('warned', after['xinds'], after['yinds'])
        else:
            c.count('no_warning')
    if seeding and len(P.walk_data['xinds']) == len(before['xinds']):
        after = before
    if seeding and after is not before:
        bad = walk.same_walk(after, P.walk_data)
        c.check(bad is None, 'particles were seeded differently after a '
                'warning: %s' % bad)
    else:
        left(c, P, tracked, before, after, 'warning')
    P.run_iteration()
    bad = walk.aligned(P.walk_data, tracked)
    c.check(bad is None, 'after a warning, histories are not aligned: %s'
            % bad)


def outside(c, fresh, tracked, sc, xs, ys):
    """Seeding where there is no value of a variable that is tracked."""
    rng = c.rng
    P = fresh()
    before = walk.snap(P.walk_data)
    k = int(rng.integers(len(xs) + 1))
    far = int(rng.choice([40, 1000]))
    xs = list(xs[:k]) + [far] + list(xs[k:])
    ys = list(ys[:k]) + [far] + list(ys[k:])
    st = np.random.get_state()
    try:
        P.generate_particles(len(xs), xs, ys, method='exact')
    except Exception as e:
        c.count('failures')
        c.count('failed_outside')
        c.sig('outside', before['xinds'], before['yinds'], type(e).__name__)
        left(c, P, tracked, before, before, 'seeding outside')
        np.random.set_state(st)
        P.run_iteration()
    else:
        c.count('taken_outside')
    bad = walk.aligned(P.walk_data, tracked)
    c.check(bad is None, 'after a failed seeding, histories are not aligned: '
            '%s' % bad)


def figures(c, sc, fresh, tracked, exc):
    """A figure cannot be saved."""
    rng = c.rng
    name = ['steady', 'time'][int(rng.integers(2))]
    its = int(rng.integers(1, 5))
    at = int(rng.integers(1, its + 1))
    c.desc.update(routine=name, iterations=its, at=at)
    P2 = fresh()
    before = walk.snap(P2.walk_data)
    st = np.random.get_state()
    for _ in range(its):
        P2.run_iteration()
    after = walk.snap(P2.walk_data)
    place = os.path.join(os.getcwd(), 'c34-%d' % c.idx)
    os.makedirs(place)
    try:
        P = fresh()
        np.random.set_state(st)
        nth = faults.Nth(at, exc)
        f = routines.steady_plots if name == 'steady' else \
            routines.time_plots
        with figs.recorded() as rec:
            save = matplotlib.figure.Figure.savefig

            def savefig(self, *a, **kw):
                nth()
                return save(self, *a, **kw)
            matplotlib.figure.Figure.savefig = savefig
            caught(c, exc, lambda: f(P, its, folder_name=os.path.join(
                place, 'f')))
        c.count('failures')
        c.count('failed_figures')
        left(c, P, tracked, before, after, name + '_plots')
        shown = sorted(os.path.basename(q.fname) for q in rec)
        c.check(len(rec) == at - 1, 'figures saved before the failure',
                n=len(rec), failed=at)
        c.check(shown == sorted(os.listdir(os.path.join(place, 'f', 'figs'))),
                'figures saved before the failure are not there', saved=shown)
        P.run_iteration()
        bad = walk.aligned(P.walk_data, tracked)
        c.check(bad is None, 'after a failure, histories are not aligned: %s'
                % bad)
        c.sig(name, at, its, after['xinds'], after['yinds'])
    finally:
        shutil.rmtree(place, True)


class Failing(pt.Particles):
    """Particles of which an iteration fails in one worker, or all."""

    def run_iteration(self, *a, **kw):
        n = self.__dict__.get('n_calls', 0) + 1
        self.n_calls = n
        p = self.__dict__.get('plan')
        if p is not None and n == p['at']:
            try:
                os.close(os.open(p['claim'], os.O_CREAT | os.O_EXCL))
                mine = True
            except FileExistsError:
                mine = False
            if mine or p['all']:
                raise p['exc']
        return pt.Particles.run_iteration(self, *a, **kw)


def workers(c, sc, fresh, tracked, xs, ys, exc):
    """A worker process fails."""
    rng = c.rng
    if not isinstance(exc, Exception):
        exc = ArithmeticError('failure %d' % c.idx)
    P = fresh(Failing)
    before = walk.snap(P.walk_data)
    its, cores = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    claim = os.path.join(os.getcwd(), 'c34-%d' % c.idx)
    if os.path.exists(claim):
        os.remove(claim)
    plain = rng.random() < .25
    n = 3
    P.n_calls = 0
    if plain:
        n, exc = 'three', TypeError()
    else:
        P.plan = dict(at=int(rng.integers(1, its + 1)), claim=claim, exc=exc,
                      all=bool(rng.integers(2)))
    c.desc.update(iterations=its, cores=cores, plan=getattr(P, 'plan', None))
    try:
        try:
            wd = pr.parallel_routing(P, its, n, list(xs), list(ys), cores)
        except Exception as e:
            c.check(type(e) is type(exc) and (plain or e.args == exc.args),
                    'the failure of a worker reached the caller as another: '
                    '%r for %r' % (e, exc))
        else:
            c.fail('the failure of a worker was hidden: %r' % exc,
                   particles=len(wd['xinds']))
    finally:
        if os.path.exists(claim):
            os.remove(claim)
    c.count('failures')
    c.count('failed_workers')
    left(c, P, tracked, before, before, 'worker')
    P.plan = None
    wd = pr.parallel_routing(P, its, 2, list(xs), list(ys), cores)
    c.check(len(wd['xinds']) == cores*(2 + len(before['xinds'])),
            'after the failure of a worker, the number of particles is wrong',
            n=len(wd['xinds']))
    c.sig('workers', cores, its, before['xinds'], repr(exc))
