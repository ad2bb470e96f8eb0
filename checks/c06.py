"""C06: histories are append-only, aligned and complete."""
import json
from vlib import gen, walk
from vlib.boot import pt
from vlib.ref import Ref

N = {'quick': 27000, 'thorough': 330000}
RULE = ('random sequences of operations (add particles, also with previous '
        'walk data, iterate, run to a target time, clear, move to a new '
        'flow) on random domains; a model of the history is kept outside of '
        'the code and compared after every operation. Non-trivial: a case '
        'with entries appended; distinct by operations and history.')
MIN = {'op_step': 2000, 'op_target': 500, 'op_generate': 1000,
       'op_previous': 200, 'op_clear': 50, 'entries_appended': 5000,
       'must_move': 3000}


def case(c):
    rng = c.rng
    sc = gen.add_tracking(rng, gen.scenario(rng, lo=4))
    if 'cell_type' in sc.options and rng.random() < .7:
        ct = sc.options['cell_type']
        ct[ct == -1] = 0
    ref = Ref(sc)
    c.desc = sc.describe()
    other = gen.decoy(rng, sc)
    P = pt.Particles(sc.params())
    tracked = [v for v in sc.options.get('particle_variables', [])]
    if 'roi_grid' in sc.options and 'roi_flag' not in tracked:
        tracked.append('roi_flag')
    model = None        # the history as it has to be
    ops = []
    saved = None
    clock = 0.
    appended = 0

    def compare(wd, what):
        bad = walk.aligned(wd, tracked)
        c.check(bad is None, 'histories are not aligned: %s' % bad, ops=ops)
        c.check(len(wd['xinds']) == len(model['xinds']),
                'number of particles is %d, not %d'
                % (len(wd['xinds']), len(model['xinds'])), ops=ops)
        bad = walk.same_walk(model, wd)
        c.check(bad is None, '%s: %s' % (what, bad), ops=ops)

    many = gen.size(rng, 4, 15, 300, .01)
    for _ in range(many):
        r = rng.random()
        if many > 60 and r > .3 and r < .9 and model is not None:
            r = .99
        if model is None and r > .3:
            r = .1
        if r < .3:
            n = gen.size(rng, 0, 6, 200, .01)
            method = ['random', 'exact'][int(rng.integers(2))]
            k = int(rng.integers(1, 5))
            xs, ys = gen.seed_cells(rng, sc, k, ['any', 'wet'][
                int(rng.integers(2))], ref)
            t = [0, 0, 2.5, 100, -3.5][int(rng.integers(5))]
            kw = {}
            prev = None
            if saved is not None and rng.random() < .4:
                prev = walk.snap(saved)
                if rng.random() < .3:
                    prev = {q: prev[q] for q in walk.BASE}
                if rng.random() < .5:
                    prev = json.loads(json.dumps(prev, default=float))
                kw['previous_walk_data'] = prev
                c.count('op_previous')
            old = walk.snap(prev)
            ops.append(('generate', n, method, t, prev is not None))
            P.generate_particles(n, xs, ys, seed_time=t, method=method, **kw)
            c.count('op_generate')
            wd = P.walk_data
            parts = [h for h in (old, model) if h is not None]
            n_old = sum(len(h['xinds']) for h in parts)
            bad = walk.aligned(wd, tracked)
            c.check(bad is None, 'histories are not aligned: %s' % bad,
                    ops=ops)
            c.check(len(wd['xinds']) == n_old + n,
                    'number of particles after adding %d to %d is %d'
                    % (n, n_old, len(wd['xinds'])), ops=ops)
            c.check(P.Np_tracer == n_old + n, 'number of particles reported '
                    'is wrong', ops=ops, reported=P.Np_tracer)
            for q in wd:
                want = []
                for h in parts:
                    if q in h:
                        want += h[q]
                    else:
                        want += [[None]*len(x) for x in h['xinds']]
                bad = walk.same_walk({q: want}, {q: wd[q][:n_old]})
                c.check(bad is None, 'adding particles changed or moved '
                        'histories: %s' % bad, ops=ops)
            for p in range(n_old, n_old + n):
                c.check(len(wd['xinds'][p]) == 1, 'a new particle has more '
                        'than one entry', ops=ops, particle=p)
            model = walk.snap(wd)
        elif r < .36:
            P.clear_walk_data()
            ops.append(('clear',))
            c.count('op_clear')
            c.check(P.walk_data is None, 'walk data left after clearing')
            try:
                P.run_iteration()
            except ValueError:
                pass
            else:
                c.fail('no error without particles')
            model = None
        elif r < .42:
            # the next flow field, as in unsteady flow
            sc = gen.scenario(rng, shape=sc.shape)
            for q in ('particle_variables', 'roi_grid'):
                if q in c.desc:
                    sc.options[q] = c.desc[q]
            ref = Ref(sc)
            P = pt.Particles(sc.params())
            P.generate_particles(0, [], [], previous_walk_data=model and
                                 walk.snap(model))
            ops.append(('flow',))
            compare(P.walk_data, 'the next flow changed the history')
        elif r < .5:
            saved = walk.snap(P.walk_data)
            ops.append(('save',))
        else:
            before = walk.lens(model)
            if r < .65:
                clock += float(rng.uniform(0, 6))*ref.dx/(ref.speed.mean()
                                                          + 1e-3)
                m = gen.size(rng, 1, 29, 400, .01)
                ops.append(('target', clock, m))
                wd = P.run_iteration(target_time=clock, max_iter=m)
                c.count('op_target')
                most = m
            else:
                ops.append(('step',))
                wd = P.run_iteration()
                c.count('op_step')
                most = 1
            for p, n0 in enumerate(before):
                n1 = len(wd['xinds'][p]) if p < len(wd['xinds']) else -1
                c.check(n0 <= n1 <= n0 + most, 'a history grew by %d in %d '
                        'iterations' % (n1 - n0, most), ops=ops, particle=p)
            head = {q: [x[:before[p]] for p, x in enumerate(wd[q])]
                    for q in wd}
            compare(head, 'moving particles changed their history')
            bad = walk.aligned(wd, tracked)
            c.check(bad is None, 'histories are not aligned: %s' % bad,
                    ops=ops)
            for p, k, a, b, t0, t1 in walk.new_moves(before, wd):
                c.check(a != b, 'an entry without a move', particle=p,
                        entry=k, at=a, ops=ops)
                appended += 1
            if most == 1 and ops[-1][0] == 'step':
                for p, n0 in enumerate(before):
                    a = (wd['xinds'][p][n0 - 1], wd['yinds'][p][n0 - 1])
                    if ref.frozen(*a):
                        continue
                    pf, ok = ref.weights(*a)
                    if ok and pf[0][4] == 0:
                        c.check(len(wd['xinds'][p]) == n0 + 1,
                                'a particle that has to move did not',
                                particle=p, at=a, ops=ops)
                        c.count('must_move')
            bad = walk.same_walk(wd, P.walk_data)
            c.check(bad is None, 'the walk data returned are not those kept:'
                    ' %s' % bad, ops=ops)
            model = walk.snap(wd)
    c.count('entries_appended', appended)
    if appended:
        c.sig([o[0] for o in ops], model['xinds'] if model else 0, appended)
        c.sample(dict(ops=ops, kind=sc.kind, appended=appended))
