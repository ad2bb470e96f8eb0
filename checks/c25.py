"""C25: plots of exposure times."""
import json
import os
import re
import shutil
import numpy as np
from vlib import figs, gen, hist, walk
from vlib.boot import pt, plt, routines
from checks.c16 import region

N = {'quick': 900, 'thorough': 20000}
CHUNK = 5
RULE = ('walk data made up, with their exposure times to random regions '
        '(also 0, and as long as the run), units of time, numbers of bins, '
        'both rules for the end, few and many particles; the curves in the '
        'figures are compared with the fraction that has left at each time, '
        'reported thresholds with the times at which that is reached, files '
        'are read back. Distinct by exposure times.')
MIN = {'exact_curves': 130, 'smooth_curves': 260, 'densities': 60,
       'thresholds': 400, 'not_reached': 200, 'read_back': 100,
       'nothing_written': 40, 'ignored_never_left': 100,
       'ignored_never_entered': 200}
ASSUMPTIONS = ['no exposure time is within 0.9895 and 1.0 of the end, where '
               'it is a matter of definition whether a particle left',
               'final times are positive']
LEVELS = (50, 75, 90)


def make(c):
    """(walk data, exposure times, uniform?)."""
    rng = c.rng
    uniform = bool(rng.integers(2))
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 10, 20, 40, 150]))
    shape = (6, 6)
    wd = hist.synthetic(rng, shape, n=n, minlen=2, maxlen=10,
                        extra=['depth'] if rng.random() < .2 else None)
    n = len(wd['xinds'])
    scale = float(rng.choice([1., 60., 3600., 86400., 1e8]))
    for t in wd['travel_times']:
        if len(t) < 2 or t[-1] <= 0:
            t[-1] = float(rng.uniform(1, 5))*scale
    last = [t[-1] for t in wd['travel_times']]
    end = max(last) if uniform else min(last)
    if end <= 1e-3*scale or rng.random() < .5:
        # equal ends, as when run to a target time
        end = scale*float(rng.uniform(2, 9))
        for t in wd['travel_times']:
            f = end/t[-1]*float(rng.uniform(1, 1.2))
            t[:] = [v*f for v in t]
        last = [t[-1] for t in wd['travel_times']]
        end = max(last) if uniform else min(last)
    et = []
    r = rng.random()
    stay, never = (0, 0) if r < .35 else tuple(rng.uniform(0, .4, 2))
    for k in range(n):
        q = rng.random()
        if q < stay:
            et.append(float(last[k]))
        elif q < stay + never:
            et.append(0.)
        else:
            et.append(float(end*rng.uniform(.01, .96 if rng.random() < .7
                                            else .989)))
    if rng.random() < .25:          # several at the same time
        for k in range(0, n - 1, 2):
            et[k] = et[k + 1]
    et = [float(end) if .9895*end < e < 1.0*end else e for e in et]
    if rng.random() < .25 and uniform is False:
        roi = region(rng, shape)
        real = pt.exposure_time(wd, roi)
        if not any(.9895*end < e < end or 0 < e < 1e-3*end for e in real):
            et = real
    return wd, et, uniform, end, n


def case(c):
    rng = c.rng
    wd, et, uniform, end, n = make(c)
    left = np.sort([e for e in et if e > 1e-6 and e < .99*end])
    td = [1, 60, 3600, 86400, 7., 100, .25][int(rng.integers(7))]
    nbins = int(rng.choice([2, 5, 50, 100, 333]))
    c.desc = dict(exposure_times=et, end=end, uniform=uniform, timedelta=td,
                  nbins=nbins)
    old, ket = walk.snap(wd), list(et)
    home = os.getcwd()
    place = os.path.join(home, 'c25-%d' % c.idx)
    os.makedirs(place)
    os.chdir(place)
    c.count('ignored_never_left', sum(e >= .99*end for e in et))
    c.count('ignored_never_entered', sum(e <= 1e-6 for e in et))

    def F(t, side='right'):
        return np.searchsorted(left, t, side=side)/n

    def on_curve(x, y, what):
        """Points on the curve, either side of a jump within rounding."""
        c.check(np.all(np.diff(y) >= 0), what + ' decreases', y=y)
        t = np.asarray(x)*td
        e = 1e-9*end
        lo, hi = F(t - e, 'left'), F(t + e)
        bad = ~((y >= lo - 1e-12) & (y <= hi + 1e-12))
        c.check(not bad.any(), what + ' is not the fraction that has left',
                time=x[bad][:5], got=y[bad][:5], want=hi[bad][:5],
                left=left, particles=n)

    def reached(q):
        k = int(np.ceil(n*q/100. - 1e-9))
        return left[k - 1] if 1 <= k <= len(left) else None

    try:
        for fn in ('plot_exposure_time', 'plot_exposure_time_thresholds'):
            save = rng.random() < .6
            kw = {}
            folder = [None, 'new' + fn, os.path.join(place, 'a', fn)][
                int(rng.integers(3))]
            if folder is not None:
                kw['folder_name'] = folder
                if rng.random() < .3:
                    os.makedirs(folder)
            if td != 1 or rng.random() < .5:
                kw['timedelta'] = td
            if nbins != 100 or rng.random() < .5:
                kw['nbins'] = nbins
            if uniform or rng.random() < .5:
                kw['uniform_timesteps'] = uniform
            if not save or rng.random() < .5:
                kw['save_output'] = save
            thr = fn != 'plot_exposure_time'
            if not thr and rng.random() < .7:
                thr = kw['show_thresholds'] = True
            before = figs.tree(place)
            closed = []
            pclose = plt.close
            with figs.recorded() as rec, hist.logged('INFO') as log:
                def close(f=None):
                    closed.append(figs.Fig(plt.gcf()))
                    pclose(f)
                plt.close = close
                try:
                    getattr(routines, fn)(wd, et, **kw)
                finally:
                    plt.close = pclose
                shown = [figs.Fig(plt.figure(k)) for k in plt.get_fignums()]
            c.check(et == ket and walk.same_walk(old, wd) is None,
                    'the inputs were changed')
            if save:
                base = folder or place
                names = [os.path.relpath(f.fname, base) for f in rec]
                for f in rec:
                    c.check(os.path.exists(f.fname), 'no figure')
                if fn == 'plot_exposure_time':
                    with open(os.path.join(base, 'data',
                                           'exposure_times.txt')) as f:
                        c.check(json.load(f) == et, 'exposure times saved')
                    c.count('read_back')
                    c.check(len(names) == 3, 'figures', names=names)
                else:
                    c.check(len(names) == 1, 'figures', names=names)
                all_ = rec
            else:
                c.check(figs.tree(place) == before and not rec,
                        'something was written with save_output=False')
                c.count('nothing_written')
                all_ = shown
            curves = []
            for f in all_:
                for x, y, style, _ in f.lines:
                    if len(x) > 2 or (len(x) == 2 and x[0] != x[1] and
                                      x[0] == 0 and not np.all(
                                          [x == [0, 1]])):
                        curves.append((x, y, style, f))
            exact = [q for q in curves if q[2].startswith('steps')]
            plain = [q for q in curves if not q[2].startswith('steps')]
            if fn == 'plot_exposure_time':
                c.check(len(exact) == 1 and len(plain) == 2, 'curves drawn',
                        exact=len(exact), plain=len(plain))
            else:
                c.check(len(plain) == 1, 'curves drawn', n=len(plain))
            for x, y, style, f in exact:
                c.check(style == 'steps-post', 'steps of the curve',
                        style=style)
                span(c, x, end, td)
                c.check(np.all(np.diff(y) >= 0), 'the curve decreases')
                # the steps as drawn, between all jumps
                t = np.unique(np.concatenate([[0], left, [end]]))
                mid = (t[1:] + t[:-1])/2
                mid = mid[np.diff(t) > 1e-6*end]
                k = np.searchsorted(x*td, mid, side='right') - 1
                c.check(np.allclose(y[k], F(mid), atol=1e-12, rtol=0),
                        'the curve is not the fraction that has left',
                        times=mid/td, got=y[k], want=F(mid))
                c.count('exact_curves')
            for j, (x, y, style, f) in enumerate(plain):
                span(c, x, end, td)
                c.check(len(x) == nbins, 'number of bins', got=len(x))
                if j == 0:
                    on_curve(x, y, 'the smooth curve')
                    c.count('smooth_curves')
                elif len(set(left)) == len(left):
                    g = np.interp(x*td, np.concatenate([[0], left, [end]]),
                                  np.concatenate([np.arange(len(left) + 1.),
                                                  [len(left)]])/n)
                    g = np.gradient(g, end/(nbins - 1))*td
                    c.check(np.allclose(y, g, atol=1e-7*max(
                        1e-300, np.abs(g).max()), rtol=1e-7),
                        'the distribution is not the derivative of the '
                        'curve per unit of time', got=y[:5], want=g[:5])
                    c.count('densities')
            units = {1: 's', 60: 'm', 3600: 'hr', 86400: 'day'}
            for x, y, style, f in exact + plain:
                lab = ' '.join(f.xlabels)
                u = units.get(td, str(td))
                c.check(re.search(r'\[%s' % re.escape(u), lab), 'unit of '
                        'time in the label', label=lab, timedelta=td)
            if not thr:
                continue
            text = [m for lv, m in log]
            for q in LEVELS:
                m = [s for s in text if re.search(r'E%d\b' % q, s)]
                c.check(len(m) == 1, 'E%d is reported %d times'
                        % (q, len(m)), messages=text)
                w = reached(q)
                if w is None:
                    c.check('not' in m[0], 'E%d was not reached' % q,
                            message=m[0], left=len(left), particles=n)
                    c.count('not_reached')
                    continue
                v = re.search(r'E%d\D*?([-+\d.]+(e[-+]?\d+)?)' % q, m[0])
                c.check('not' not in m[0] and v, 'E%d was reached' % q,
                        message=m[0], at=w/td)
                v = float(v.group(1))
                if fn == 'plot_exposure_time':
                    tol = 6e-3*w/td + 1e-12
                    c.check(abs(v - w/td) <= tol, 'E%d' % q, message=m[0],
                            want=w/td)
                else:   # as read off the smooth curve, in whole units
                    c.check(w/td - 1 - 1e-9 <= v <= (w + end/(nbins - 1))/td
                            + 1e-9, 'E%d' % q, message=m[0], want=w/td,
                            bins=end/(nbins - 1)/td)
                c.count('thresholds')
        if len(left) > 1:
            c.sig(et, end, td)
            c.sample(c.desc)
    finally:
        os.chdir(home)
        shutil.rmtree(place, True)


def span(c, x, end, td):
    c.check(abs(x[0]) <= 1e-12*end/td and abs(x[-1] - end/td)
            <= 1e-9*end/td, 'the curve does not extend from 0 to the final '
            'time', first=x[0], last=x[-1], end=end/td)
