"""Running of cases, verdicts, counters and evidence.

A check module (checks/cNN.py) has

    N = {'quick': n, 'thorough': n}   number of cases
    RULE = '...'                      how cases are made, what is non-trivial
    MIN = {counter: minimum}          what has to be observed (per tier or one)
    def case(c): ...                  runs case c.idx, raises Violation
    def finalize(m): ...              optional, over the merged observations

Verdicts: held (exit 0), violated (exit 1), or inconclusive (exit 2).
"""
import errno
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool

from . import boot
import numpy as np


class Violation(BaseException):
    """The property was seen not to hold."""

    def __init__(self, msg, **detail):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(BaseException):
    """Nothing can be said."""


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        if len(x) > 400:
            x = x[:400] + ['...']
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        x = float(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:500]


class Ctx:
    """What one case is given, and what it reports."""

    def __init__(self, prop, tier, seed, idx):
        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        num = int(prop[1:])
        self.rng = np.random.default_rng([seed % 2**63, num, idx])
        self.counters = Counter()
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.known = Counter()
        self.stats = []
        self.desc = {}
        self.reseed()

    def reseed(self, extra=None):
        """Seed numpy's global generator (which the code uses)."""
        s = int(self.rng.integers(2**31)) if extra is None else int(extra)
        np.random.seed(s)
        return s

    def check(self, cond, msg, **detail):
        self.counters['oracle_evaluations'] += 1
        if not cond:
            raise Violation(msg, **detail)

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def peak(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def sig(self, *parts):
        self.sigs.add(hash_of(parts))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(jsonable(obj))

    def stat(self, **kw):
        """Numbers pooled over cases, for `finalize`."""
        self.stats.append(kw)


def hash_of(parts):
    import hashlib
    h = hashlib.blake2b(digest_size=8)

    def put(p):
        if isinstance(p, np.ndarray):
            h.update(str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        elif isinstance(p, (list, tuple)):
            h.update(b'(')
            for q in p:
                put(q)
            h.update(b')')
        else:
            h.update(repr(p).encode())
            h.update(b';')
    put(parts)
    return int.from_bytes(h.digest(), 'big')


# ---------------------------------------------------------------------------
# progress watch: a call which goes on for long is judged by the number of
# lines of the code under test that it runs, not by the clock
# ---------------------------------------------------------------------------
LINE_BUDGET = 20_000_000
ALARM_S = 60
GIVE_UP_S = 600
_watch = {'lines': 0, 'on': False, 't0': 0.0}


def _on_line(code, lineno):
    if not code.co_filename.startswith(boot.REPO):
        return sys.monitoring.DISABLE
    _watch['lines'] += 1
    if _watch['lines'] > LINE_BUDGET:
        _watch['lines'] = 0
        raise Violation('no end after %d lines of code in %s (%s)'
                        % (LINE_BUDGET, code.co_name, code.co_filename))


def _on_alarm(signum, frame):
    if time.monotonic() - _watch['t0'] > GIVE_UP_S:
        raise Inconclusive('a case took more than %d s' % GIVE_UP_S)
    if not _watch['on']:
        m = sys.monitoring
        m.use_tool_id(m.DEBUGGER_ID, 'verif')
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, _on_line)
        m.set_events(m.DEBUGGER_ID, m.events.LINE)
        _watch['on'] = True
    signal.alarm(ALARM_S)


def _watch_start():
    _watch['lines'] = 0
    _watch['t0'] = time.monotonic()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(ALARM_S)


def _watch_stop():
    signal.alarm(0)
    if _watch['on']:
        m = sys.monitoring
        m.set_events(m.DEBUGGER_ID, 0)
        m.free_tool_id(m.DEBUGGER_ID)
        _watch['on'] = False


RESOURCE = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
            errno.EAGAIN, errno.EDQUOT)


def run_case(mod, prop, tier, seed, idx):
    """Run one case. Returns (ctx, verdict), verdict None when it held."""
    c = Ctx(prop, tier, seed, idx)
    work = os.path.join(boot.SCRATCH, 'w%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    verdict = None
    try:
        _watch_start()
        mod.case(c)
    except Violation as e:
        verdict = ('violation', e.msg, jsonable(e.detail))
    except Inconclusive as e:
        verdict = ('inconclusive', str(e), {})
    except MemoryError as e:
        verdict = ('inconclusive', repr(e), {})
    except OSError as e:
        if e.errno in RESOURCE:
            verdict = ('inconclusive', repr(e), {})
        else:
            verdict = ('violation', 'unexpected ' + repr(e)[:300],
                       {'traceback': traceback.format_exc()[-3000:]})
    except Exception as e:
        verdict = ('violation', 'unexpected ' + repr(e)[:300],
                   {'traceback': traceback.format_exc()[-3000:]})
    finally:
        _watch_stop()
        try:
            boot.plt.close('all')
        except Exception:
            pass
    c.count('cases')
    return c, verdict


class Merged:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = Counter()
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.known = Counter()
        self.stats = []
        self.bad = []
        self.unsure = []

    def add(self, r):
        self.counters.update(r['counters'])
        for k, v in r['maxima'].items():
            self.maxima[k] = max(self.maxima.get(k, v), v)
        self.sigs |= r['sigs']
        self.samples += r['samples']
        self.samples = self.samples[:6]
        self.known.update(r['known'])
        self.stats += r['stats']
        self.bad += r['bad']
        self.unsure += r['unsure']


_MOD = None
# (less than all cases, to try out many changed versions: tools/mutate.py)
SCALE = float(os.environ.get('VERIF_SCALE', '1'))


def _chunk(args):
    prop, tier, seed, idxs, t_end = args
    m = Merged(prop, tier, seed)
    for idx in idxs:
        if time.time() > t_end:
            m.counters['cases_not_run'] += 1
            continue
        c, verdict = run_case(_MOD, prop, tier, seed, idx)
        out = dict(counters=c.counters, maxima=c.maxima, sigs=c.sigs,
                   samples=c.samples if len(m.samples) < 3 else [],
                   known=c.known, stats=c.stats, bad=[], unsure=[])
        if verdict is not None:
            rec = dict(idx=idx, msg=verdict[1], detail=verdict[2],
                       case=jsonable(c.desc))
            out['bad' if verdict[0] == 'violation' else 'unsure'].append(rec)
        m.add(out)
        if m.bad or m.unsure:
            break
    return dict(counters=m.counters, maxima=m.maxima, sigs=m.sigs,
                samples=m.samples, known=m.known, stats=m.stats, bad=m.bad,
                unsure=m.unsure)


def run_all(mod, prop, tier, seed, workers, limit_s):
    global _MOD
    _MOD = mod
    n = max(1, int(mod.N[tier]*SCALE))
    m = Merged(prop, tier, seed)
    size = max(1, min(getattr(mod, 'CHUNK', 20), n // (workers * 4) or 1))
    t_end = time.time() + limit_s
    chunks = [(prop, tier, seed, list(range(i, min(n, i + size))), t_end)
              for i in range(0, n, size)]
    workers = min(workers, getattr(mod, 'WORKERS', workers))
    # (fork: the code has been imported already, and is not changed)
    ex = ProcessPoolExecutor(workers,
                             mp_context=multiprocessing.get_context('fork'))
    pending = set()
    try:
        it = iter(chunks)
        done_in = False
        while True:
            while not done_in and len(pending) < 2 * workers:
                try:
                    pending.add(ex.submit(_chunk, next(it)))
                except StopIteration:
                    done_in = True
            if not pending:
                break
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in done:
                m.add(f.result())
            if m.bad or m.unsure:
                break
    except BrokenProcessPool as e:
        m.unsure.append(dict(idx=None, msg='a worker died: %r' % e,
                             detail={}, case={}))
    finally:
        for f in pending:
            f.cancel()
        ex.shutdown(wait=not (m.bad or m.unsure), cancel_futures=True)
        if m.bad or m.unsure:
            for p in list((ex._processes or {}).values()):
                try:
                    p.terminate()
                except Exception:
                    pass
    return m


def load_known():
    with open(os.path.join(boot.VERIF, 'known_findings.json')) as f:
        return json.load(f)


def main(prop, mod, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or \
        min(8, os.cpu_count() or 1)
    limit = 420 if tier == 'quick' else 780

    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        tier, seed = r['tier'], r['seed']
        if r['idx'] is not None:
            c, verdict = run_case(mod, prop, tier, seed, r['idx'])
            print(json.dumps(dict(verdict=verdict, case=jsonable(c.desc)),
                             indent=1)[:8000])
            if verdict and verdict[0] == 'violation':
                print('VIOLATION property=%s replay=%s' % (prop, replay))
                return 1
            return 2 if verdict else 0

    m = run_all(mod, prop, tier, seed, workers, limit)
    if not m.bad and not m.unsure and hasattr(mod, 'finalize'):
        try:
            mod.finalize(m)
        except Violation as e:
            m.bad.append(dict(idx=None, msg=e.msg, detail=jsonable(e.detail),
                              case={}))

    # known findings: only those in the committed file
    allowed = {k['key']: k for k in load_known()['known']
               if k['property'] == prop}
    for key in sorted(m.known):
        if key in allowed:
            print('KNOWN-FINDING: property=%s %s (%d times)'
                  % (prop, allowed[key]['what'], m.known[key]))
        else:
            m.bad.append(dict(idx=None, msg='unlisted finding ' + key,
                              detail={}, case={}))

    short = []
    if not m.bad and not m.unsure and SCALE == 1:
        need = dict(getattr(mod, 'MIN', {}))
        need.setdefault('oracle_evaluations', 1)
        for k, v in need.items():
            if m.counters[k] < v:
                short.append('%s: %d < %d' % (k, m.counters[k], v))

    cov = dict(evaluations=int(m.counters['cases']),
               distinct_nontrivial=len(m.sigs),
               rule=mod.RULE,
               samples=m.samples or [{'none': True}],
               observed={k: int(v) for k, v in sorted(m.counters.items())},
               maxima=jsonable(m.maxima),
               known_findings={k: int(v) for k, v in m.known.items()})
    if getattr(m, 'extra', None):
        cov['pooled'] = jsonable(m.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'numpy, scipy, matplotlib and the reference model in '
                  '/verif/vlib are trusted',
                  'held only on the executions counted here'],
              wall_s=round(time.time() - t0, 2), violations=len(m.bad))
    out = os.environ.get('VERIF_OUT', boot.VERIF)
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    path = os.path.join(out, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)

    if m.bad:
        os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
        b = m.bad[0]
        rp = os.path.join(out, 'replays', '%s-%s-%s-%s.json'
                          % (prop, tier, seed, b['idx']))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, idx=b['idx'],
                           message=b['msg'], detail=b['detail'],
                           case=b['case']), f, indent=1)
        print('case %s: %s' % (b['idx'], b['msg']))
        print(json.dumps(b['detail'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if m.unsure or short:
        for u in m.unsure[:3]:
            print('inconclusive: case %s: %s' % (u['idx'], u['msg']))
        for s in short:
            print('inconclusive: too little observed, ' + s)
        return 2
    print('held: property=%s tier=%s seed=%d cases=%d distinct=%d '
          'evaluations=%d in %.1f s'
          % (prop, tier, seed, m.counters['cases'], len(m.sigs),
             m.counters['oracle_evaluations'], time.time() - t0))
    return 0
