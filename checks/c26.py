"""C26: logging and printing."""
import contextlib
import io
import json
import logging
import os
import subprocess
import sys
import warnings
import numpy as np
from vlib import boot, gen, hist
from vlib.boot import dorado, pt, routines

N = {'quick': 7000, 'thorough': 250000}
RULE = ('random sequences of configurations (levels in any case, own '
        'handlers, none, repeated, unknown levels, verbose options) with '
        'calls of the library between them; a model of the configuration '
        'says which messages have to reach which handler. Every 120th case '
        'also in a fresh process. Distinct by sequence.')
MIN = {'configurations': 7000, 'messages_delivered': 6000,
       'messages_held_back': 6000, 'invalid': 1000, 'verbose': 1400,
       'processes': 15}
ASSUMPTIONS = ['messages that the application sends through the logger of '
               'the library count as messages of the library']
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']

CHILD = r'''
import sys, json, io, logging
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
root = logging.getLogger()
app = logging.getLogger('app')
before = (root.level, len(root.handlers), app.level, logging.root.manager.disable)
import warnings
warnings.simplefilter('ignore')
import dorado, numpy as np
lg = logging.getLogger('dorado')
res = dict(prop=lg.propagate, root=[root.level, len(root.handlers)],
           same=before == (root.level, len(root.handlers), app.level,
                           logging.root.manager.disable))
level, times = sys.argv[2], int(sys.argv[3])
for _ in range(times):
    if level == 'default':
        dorado.setup_logging()
    else:
        dorado.setup_logging(level)
res['n'] = len(lg.handlers)
lg.info('MARK-INFO')
lg.warning('MARK-WARNING')
lg.error('MARK-ERROR')
wd = dict(xinds=[[1, 1]], yinds=[[1, 2]], travel_times=[[0., 1.]])
dorado.particle_track.exposure_time(wd, np.ones((4, 4), int))
dorado.routines.get_state(wd, 5)
p = dorado.particle_track.modelParams()
p.dx = 1.
p.depth = np.ones((5, 5)); p.stage = np.ones((5, 5))
p.qx = np.ones((5, 5)); p.qy = np.zeros((5, 5))
P = dorado.particle_track.Particles(p)
P.generate_particles(2, [2], [2])
P.run_iteration()
P.run_iteration(target_time=5., max_iter=2)
res['root2'] = [root.level, len(root.handlers)]
sys.stderr.write('RESULT ' + json.dumps(res) + '\n')
'''


class Sink(hist.Catch):
    def __init__(self):
        hist.Catch.__init__(self)
        self.name_ = None


def process(c):
    rng = c.rng
    level = ['default', 'INFO', 'info', 'ERROR', 'WARNING'][
        int(rng.integers(5))]
    times = int(rng.integers(1, 4))
    env = dict(os.environ, MPLBACKEND='Agg', TQDM_DISABLE='1')
    r = subprocess.run([sys.executable, '-c', CHILD, boot.REPO, level,
                        str(times)], env=env, capture_output=True, text=True,
                       timeout=300)
    line = [x for x in r.stderr.splitlines() if x.startswith('RESULT ')]
    c.check(r.returncode == 0 and line, 'a fresh process failed',
            stderr=r.stderr[-2000:])
    res = json.loads(line[0][7:])
    c.check(r.stdout == '', 'printed to stdout', stdout=r.stdout[:500])
    c.check(res['same'] and res['root'] == res['root2'], 'loggers of the '
            'application were changed', res=res)
    c.check(res['n'] == 1, 'handlers after setup_logging', n=res['n'])
    low = 'WARNING' if level == 'default' else level.upper()
    for k in ('INFO', 'WARNING', 'ERROR'):
        want = int(getattr(logging, k) >= getattr(logging, low))
        c.check(r.stderr.count('MARK-' + k) == want, 'a message came %d '
                'times to stderr, not %d' % (r.stderr.count('MARK-' + k),
                                             want), level=level, message=k)
    c.check(('within ROI' in r.stderr) == (low == 'INFO'),
            'messages of the library at level ' + level)
    c.count('processes')


def emit(c, rng):
    """Something that logs; the records expected, if known exactly."""
    k = int(rng.integers(5))
    if k == 0:
        out = []
        for lv in LEVELS:
            m = 'message %d' % int(rng.integers(1e9))
            logging.getLogger('dorado').log(getattr(logging, lv), m)
            out.append((lv, m))
        return out
    wd = dict(xinds=[[1, 1], [0, 1]], yinds=[[1, 2], [0, 1]],
              travel_times=[[0., 1.], [0., 3.]])
    if k == 1:
        pt.exposure_time(wd, np.ones((4, 4), int))
    elif k == 2:
        routines.get_state(wd, 5)
    elif k == 3:
        routines.get_time_state(wd, 2.)
    else:
        pt.Particles(gen.scenario(rng, hi=6).params())
    return None


def verbose_call(rng, v):
    """A call with a verbose option, which has something to say."""
    wd = dict(xinds=[[1, 1]], yinds=[[1, 2]], travel_times=[[0., 1.]])
    k = int(rng.integers(5))
    if k == 0:
        pt.exposure_time(wd, np.ones((4, 4), int), verbose=v)
    elif k == 1:
        routines.get_state(wd, 5, verbose=v)
    elif k == 2:
        routines.get_time_state(wd, 2., verbose=v)
    elif k == 3:
        pt.Particles(gen.scenario(rng, hi=6).params(verbose=v))
    else:
        os.makedirs('there', exist_ok=True)
        routines.time_plots(P, 0, 'there', verbose=v) if False else \
        routines.snake_plots(np.zeros((4, 4)), wd, 0, 'there', verbose=v)


def others():
    """Loggers of other libraries."""
    return {k: (g.level, list(g.handlers), g.propagate, g.disabled)
            for k, g in list(logging.root.manager.loggerDict.items())
            if isinstance(g, logging.Logger) and k.split('.')[0] != 'dorado'}


def case(c):
    rng = c.rng
    if c.idx % 120 == 0:
        process(c)
    lg = logging.getLogger('dorado')
    root, app = logging.getLogger(), logging.getLogger('app')
    saved = (lg.level, list(lg.handlers), lg.propagate, lg.disabled,
             root.level, list(root.handlers), app.level, list(app.handlers))
    out, err = io.StringIO(), io.StringIO()
    seq = []
    try:
        lg.handlers[:] = []
        lg.setLevel(logging.WARNING)
        lg.propagate = True
        # the application's own
        top = Sink()
        root.handlers[:] = [top] if rng.random() < .7 else []
        root.setLevel([logging.WARNING, logging.DEBUG, logging.INFO][
            int(rng.integers(3))])
        mine = Sink()
        app.handlers[:] = [mine]
        app.setLevel(logging.INFO)
        frame = (root.level, list(root.handlers), app.level,
                 list(app.handlers), app.propagate, app.disabled,
                 root.disabled, root.manager.disable, logging.lastResort)
        rest = others()
        sinks = [Sink() for _ in range(3)]
        for s in sinks:
            if rng.random() < .3:
                s.setLevel([logging.INFO, logging.ERROR][
                    int(rng.integers(2))])
        levels = {id(s): s.level for s in sinks}
        attached, level = [], 'WARNING'
        default = False
        with contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for _ in range(int(rng.integers(1, 8))):
                r = rng.random()
                if r < .2:
                    bad = ['LOUD', 'verbose', '', 'warn ing', 'INF0',
                           '20', 'TRACE'][int(rng.integers(7))]
                    try:
                        dorado.setup_logging(bad)
                    except ValueError:
                        pass
                    else:
                        c.fail('unknown level accepted: %r' % bad)
                    seq.append(bad)
                    c.count('invalid')
                elif r < .4:
                    v = [True, False, None][int(rng.integers(3))]
                    with warnings.catch_warnings(record=True) as W:
                        warnings.simplefilter('always')
                        verbose_call(rng, v)
                    dep = [w for w in W if issubclass(
                        w.category, DeprecationWarning) and
                        'verbose' in str(w.message)]
                    c.check(bool(dep) == (v is not None), 'deprecation '
                            'warning for verbose=%s: %d' % (v, len(dep)))
                    if v is not None:
                        level = 'INFO' if v else 'ERROR'
                        if not attached and not default:
                            default = True
                    seq.append(('verbose', v))
                    c.count('verbose')
                else:
                    lv = LEVELS[int(rng.integers(5))]
                    say = [lv, lv.lower(), lv.capitalize()][
                        int(rng.integers(3))]
                    h = None if rng.random() < .4 else \
                        sinks[int(rng.integers(3))]
                    plain = h is None and rng.random() < .2
                    if plain:
                        lv = 'WARNING'
                        dorado.setup_logging()
                    elif h is None:
                        dorado.setup_logging(say)
                    else:
                        dorado.setup_logging(say, handler=h)
                    level = lv
                    if h is None:
                        if not attached and not default:
                            default = True
                    elif not any(h is a for a in attached):
                        attached.append(h)
                    seq.append((say, None if h is None else sinks.index(h)))
                c.count('configurations')
                c.check(lg.level == getattr(logging, level), 'level',
                        got=lg.level, want=level, sequence=seq)
                c.check(len(lg.handlers) == len(attached) + default,
                        'number of handlers', got=len(lg.handlers),
                        want=len(attached) + default, sequence=seq)
                for s in sinks:
                    c.check(s.level == levels[id(s)], 'the level of a '
                            'handler was changed')
                    s.records.clear()
                top.records.clear()
                err.seek(0)
                err.truncate()
                sent = emit(c, rng)
                texts = err.getvalue()
                # every attached handler once, the others not at all
                for s in sinks:
                    got = s.records
                    if not any(s is a for a in attached):
                        c.check(not got, 'a message came to a handler that '
                                'was not given', records=got, sequence=seq)
                        continue
                    low = max(getattr(logging, level), levels[id(s)])
                    c.check(all(getattr(logging, g[0]) >= low for g in got),
                            'a message below the level', records=got,
                            level=level, sequence=seq)
                    if sent is not None:
                        want = [m for m in sent
                                if getattr(logging, m[0]) >= low]
                        c.check(got == want, 'messages that came to a '
                                'handler', got=got, want=want, sequence=seq)
                        c.count('messages_delivered', len(want))
                        c.count('messages_held_back', len(sent) - len(want))
                    else:
                        same = [a for a in attached
                                if levels[id(a)] == levels[id(s)]]
                        c.check(all(a.records == got for a in same),
                                'handlers differ', sequence=seq)
                        c.check(bool(got) == (low <= logging.INFO),
                                'messages of the library', got=got,
                                level=level, sequence=seq)
                        c.count('messages_delivered' if got else
                                'messages_held_back')
                        if top in root.handlers:
                            c.check(levels[id(s)] > 0 or
                                    top.records == got, 'a message did not '
                                    'come to the handlers of the application '
                                    'exactly once', got=top.records,
                                    want=got)
                if default and sent is not None:
                    for lv, m in sent:
                        want = int(getattr(logging, lv) >=
                                   getattr(logging, level))
                        c.check(texts.count(m) == want, 'a message came %d '
                                'times to stderr, not %d'
                                % (texts.count(m), want), level=level,
                                sequence=seq)
        now = (root.level, list(root.handlers), app.level,
               list(app.handlers), app.propagate, app.disabled,
               root.disabled, root.manager.disable, logging.lastResort)
        now2 = others()
        c.check(all(now2[k] == rest[k] for k in rest), 'loggers of other '
                'libraries were changed', sequence=seq)
        c.check(now == frame, 'loggers of the application were changed',
                sequence=seq, before=frame, after=now)
        c.check(lg.propagate and not lg.disabled, 'the logger of the library '
                'does not pass messages on any more', sequence=seq)
        c.check(out.getvalue() == '', 'printed to stdout',
                text=out.getvalue()[:500])
    finally:
        lg.handlers[:] = saved[1]
        lg.setLevel(saved[0])
        lg.propagate, lg.disabled = saved[2], saved[3]
        root.setLevel(saved[4])
        root.handlers[:] = saved[5]
        app.setLevel(saved[6])
        app.handlers[:] = saved[7]
    c.sig(seq, root.level)
    c.sample(dict(sequence=seq))
