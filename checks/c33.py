"""C33: reports on settings."""
import logging
import warnings
import numpy as np
from vlib import gen, hist, walk
from vlib.boot import pt
from vlib.ref import Ref
from checks import c32

N = {'quick': 12000, 'thorough': 300000}
CHUNK = 20
RULE = ('random parameters, some left out, out of their range, or at its '
        'ends, at random verbosity and level; messages and warnings are '
        'caught, and walks with a corrected setting compared with those '
        'with the value it stands for. Distinct by settings and messages.')
MIN = {'left_out': 8000, 'given': 8000, 'negative': 500, 'large': 500,
       'in_range': 2000, 'seed_time_warned': 1000, 'seed_time_zero': 1000,
       'silent': 1000, 'same_as_zero': 300, 'large_used': 100, 'no_message': 1000}
ASSUMPTIONS = ['messages are recognised by the name of the setting in them']
SAY = {'theta': ('theta', ('1',)), 'gamma': ('gamma', ('.05',)),
       'diff_coeff': ('diffusi', None), 'dry_depth': ('wet', None),
       'cell_type': ('cell type', None)}


def case(c):
    rng = c.rng
    sc = gen.scenario(rng, lo=4, hi=9)
    o = sc.options
    for k, draw in (('theta', lambda: float(rng.uniform(0, 3))),
                    ('gamma', lambda: float(rng.uniform(0, 1))),
                    ('dry_depth', lambda: float(rng.uniform(.01, .3)))):
        if rng.random() < .5:
            o[k] = draw()
        else:
            o.pop(k, None)
    r = rng.random()
    o.pop('diff_coeff', None)
    if r < .15:
        o['diff_coeff'] = -float(10**rng.uniform(-9, 1))
    elif r < .3:
        o['diff_coeff'] = 2. + float(rng.choice([0., 1e-9, .5, 10.]))
    elif r < .6:
        o['diff_coeff'] = float(rng.choice([0., .2, 1., 1.999999, -0.,
                                            float(rng.uniform(0, 2))]))
    if 'diff_coeff' in o and rng.random() < .2:
        o['diff_coeff'] = np.float64(o['diff_coeff'])
    if 'cell_type' in o and rng.random() < .3:
        o.pop('cell_type')
    if rng.random() < .3:
        o['steepest_descent'] = True
    if rng.random() < .3:
        o['roi_grid'] = gen.make_roi(rng, sc.shape).astype(int)
    verbose = [None, None, True, False][int(rng.integers(4))]
    o.pop('verbose', None)
    if verbose is not None:
        o['verbose'] = verbose
    level = ['DEBUG', 'INFO', 'WARNING', 'ERROR'][int(rng.choice(
        4, p=[.2, .5, .2, .1]))]
    # (verbose sets the level, as documented)
    eff = level if verbose is None else 'INFO' if verbose else 'ERROR'
    d = o.get('diff_coeff', None)
    steep = o.get('steepest_descent', False) is True
    c.desc = dict(sc.describe(), level=level)
    p = sc.params()
    with hist.logged(level) as log, warnings.catch_warnings(
            record=True) as W:
        warnings.simplefilter('always')
        P = pt.Particles(p)
        logging.getLogger('dorado').setLevel(level)
    said = [m.lower() for lv, m in log]
    quiet = getattr(logging, eff) > logging.INFO
    for k, (word, values) in SAY.items():
        told = [m for m in said if word in m]
        if k in o or quiet:
            c.check(not told, 'a message on a setting that was given, or '
                    'below the level', setting=k, messages=told, level=eff)
            c.count('no_message' if quiet else 'given')
            continue
        c.check(len(told) == 1, 'a setting left out is not reported once',
                setting=k, messages=said)
        if k == 'diff_coeff':
            values = ('disabled', ' 0.0') if steep else ('0.2',)
        c.check(not values or any(v in told[0] for v in values), 'another '
                'value is reported than the default', setting=k,
                message=told[0])
        c.count('left_out')
    if not quiet:
        a = any('using steepest' in m for m in said)
        b = any('random walk' in m for m in said)
        c.check((a, b) == (steep, not steep), 'kind of walk reported',
                messages=said, steepest=steep)
        c.check(any('roi' in m.split() for m in said) == ('roi_grid' in o),
                'region reported', messages=said)
    mine = [str(w.message) for w in W if issubclass(w.category, UserWarning)]
    low = [m.lower() for m in mine if 'diffusi' in m.lower()]
    c.check(len(mine) == len(low), 'other warnings', warnings=mine)
    if verbose is False:
        c.check(not low, 'a warning although verbose is off', warnings=low)
        c.count('silent')
    elif d is not None and d < 0:
        c.check(len(low) == 1 and 'negative' in low[0], 'no warning of a '
                'negative coefficient', warnings=low, coefficient=d)
        c.count('negative')
    elif d is not None and d >= 2:
        c.check(len(low) == 1 and 'negative' not in low[0], 'no warning of '
                'a coefficient of 2 or more', warnings=low, coefficient=d)
        c.count('large')
    else:
        c.check(not low, 'a warning of a coefficient in its range',
                warnings=low, coefficient=d)
        c.count('in_range')
    # seed times
    ref = Ref(sc)
    n = int(rng.integers(1, 6))
    xs, ys = gen.seed_cells(rng, sc, n, 'any', ref)
    t = [0, 0., 0, 1e-9, -2., 5, 3600.][int(rng.integers(7))]
    kw = {} if t == 0 and rng.random() < .5 else dict(seed_time=t)
    s = int(rng.integers(2**31))

    def go(P):
        np.random.seed(s)
        with warnings.catch_warnings(record=True) as W:
            warnings.simplefilter('always')
            for _ in range(int(2 if t else 1)):
                P.generate_particles(n, xs, ys, **kw)
        seen = [str(w.message) for w in W
                if issubclass(w.category, UserWarning)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for _ in range(5):
                P.run_iteration()
        return seen, walk.snap(P.walk_data)
    seen, wd = go(P)
    want = 2 if t and verbose is not False else 0
    c.check(len(seen) == want and all('seed time' in m.lower()
                                      for m in seen),
            'warnings of seed times', got=seen, want=want, seed_time=t)
    c.count('seed_time_warned' if want else 'seed_time_zero')
    if d is not None and d < 0:
        o2 = dict(o)
        o['diff_coeff'] = 0.
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with hist.logged(level):
                _, wd2 = go(pt.Particles(sc.params()))
        o.update(o2)
        bad = walk.same_walk(wd, wd2)
        c.check(bad is None, 'a negative coefficient is not taken as zero: '
                '%s' % bad, coefficient=d)
        c.count('same_as_zero')
    elif d is not None and d >= 2 and c.idx % 2:
        large(c, d)
    c.sig(sorted(said), mine, str(d), verbose, level, t, s)
    c.sample(dict(messages=said, warnings=mine, diff_coeff=d))


def large(c, d):
    """It is used as given, warning or not."""
    rng = c.rng
    p = c32.build(1., 0., 1., 0., (60, 9), dict(
        discharge=False, model=None, given='depth_stage'), rng)
    p.dx, p.diff_coeff = 1., d
    with warnings.catch_warnings(), hist.logged('ERROR'):
        warnings.simplefilter('ignore')
        P = pt.Particles(p)
    np.random.seed(int(rng.integers(2**31)))
    P.generate_particles(4, [2], [4])
    for _ in range(40):
        wd = P.run_iteration()
    e = np.concatenate([np.diff(t) - 1 for t in wd['travel_times']])/d
    if len(e) < 30:
        return
    c.check(np.abs(e).max() <= .5 + 1e-6, 'times exceed the dispersion')
    z = ((e**2).sum() - len(e)/12.)/np.sqrt(len(e)*(1/80. - 1/144.))
    c.check(abs(z) < 8, 'a large coefficient is not used as given', z=z,
            steps=len(e), coefficient=d)
    c.count('large_used')
