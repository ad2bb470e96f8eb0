"""Mutation of the code under test, to find what the checks do not see.

mutate.py list                       number of mutants by function
mutate.py run OUT.jsonl [SAMPLE] [REGEX]
    each mutant is made in a scratch copy of /repo; those that pass the tests
    are given to the checks that concern the function (then to all others
    with ALL=1); what survives is written to OUT.jsonl
"""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['lagrangian_walker', 'particle_track', 'parallel_routing', 'spatial',
         'logging_config', 'routines']

WALK = 'C01 C02 C03 C04 C05 C06 C07 C09 C12'
MAP = {
    'lagrangian_walker': {'random_pick_seed': 'C08 C12', '': WALK},
    'particle_track': {
        '__init__': WALK + ' C10 C11 C26', 'clear_walk_data': 'C06 C09',
        'generate_particles': 'C08 C06 C09 C29 C11 C24',
        'run_iteration': 'C07 C06 C09 C01 C29 C12 C26',
        'gen_input_check': 'C08', 'coord2ind': 'C14 C28',
        'ind2coord': 'C14 C28', 'exposure_time': 'C16 C17 C28 C26',
        'nourishment_area': 'C19 C28', 'nourishment_time': 'C20 C28',
        'unstruct2grid': 'C15', 'flux_proportional_seeding': 'C21',
        '': WALK},
    'parallel_routing': {'': 'C13'},
    'spatial': {'systemwide': 'C17 C28', 'localized': 'C17 C28',
                '_find_common_indices_info': 'C17', 'plot_spatial': 'C27',
                '': 'C18 C28'},
    'logging_config': {'': 'C26'},
    'routines': {'steady_plots': 'C23 C26', 'time_plots': 'C23 C26',
                 'unsteady_plots': 'C24 C26', 'get_state': 'C22 C28 C27 C23',
                 'get_time_state': 'C22 C28 C27', 'animate_plots': 'C30',
                 'plot_exposure_time': 'C25 C28',
                 'plot_exposure_time_thresholds': 'C25 C28',
                 '': 'C27 C28'},
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
CMP2 = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any',
         'floor': 'ceil', 'ceil': 'floor', 'nansum': 'sum', 'nanmax': 'nanmin',
         'nanmin': 'nanmax', 'argsort': 'argmax', 'abs': 'float',
         'qx': 'qy', 'qy': 'qx', 'u': 'v', 'v': 'u', 'iwalk': 'jwalk',
         'jwalk': 'iwalk', 'ivec': 'jvec', 'jvec': 'ivec', 'stage': 'depth',
         'nanmedian': 'nanmean', 'median': 'mean', 'mean': 'median',
         'nanpercentile': 'percentile', 'copy': 'view', 'round': 'floor'}
STR = {'xinds': 'yinds', 'yinds': 'xinds', 'travel_times': 'xinds',
       'depth': 'stage', 'INFO': 'WARNING', 'ERROR': 'INFO'}


def mutants_of(node):
    """Mutated copies of one node."""
    def c():
        return copy.deepcopy(node)
    if isinstance(node, ast.Compare) and len(node.ops) >= 1:
        for k in range(len(node.ops)):
            for table in (CMP, CMP2):
                t = type(node.ops[k])
                if t in table:
                    n = c()
                    n.ops[k] = table[t]()
                    yield n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        if isinstance(node.op, ast.Mod):
            return
        n = c()
        n.op = BIN[type(node.op)]()
        yield n
    elif isinstance(node, ast.BoolOp):
        n = c()
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n
        for k in range(len(node.values)):
            yield copy.deepcopy(node.values[k])
    elif isinstance(node, ast.UnaryOp):
        yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            if v > 0:
                yield ast.Constant(v - 1)
        elif isinstance(v, float):
            yield ast.Constant(v*1.5 if v else .5)
        elif isinstance(v, str) and v in STR:
            yield ast.Constant(STR[v])
        elif v is None:
            pass
    elif isinstance(node, ast.Attribute) and node.attr in NAMES:
        n = c()
        n.attr = NAMES[node.attr]
        yield n
    elif isinstance(node, ast.Name) and node.id in NAMES and \
            isinstance(node.ctx, ast.Load):
        yield ast.Name(NAMES[node.id], ast.Load())
    elif isinstance(node, ast.Call):
        for k in range(len(node.keywords)):
            n = c()
            del n.keywords[k]
            yield n
    elif isinstance(node, ast.Slice):
        for f in ('lower', 'upper'):
            if getattr(node, f) is not None:
                n = c()
                setattr(n, f, None)
                yield n
    elif isinstance(node, (ast.If, ast.While)):
        pass


def all_mutants(module):
    path = os.path.join('dorado', module + '.py')
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return (offs[n.lineno-1] + n.col_offset,
                offs[n.end_lineno-1] + n.end_col_offset)

    out = []

    def put(func, n, text, kind):
        a, b = span(n)
        out.append(dict(module=module, func=func, line=n.lineno, kind=kind,
                        a=a, b=b, old=raw[a:b].decode(), new=text))

    def walk(node, func):
        for ch in ast.iter_child_nodes(node):
            f = func
            if isinstance(ch, ast.FunctionDef):
                f = ch.name if func is None or func == 'class' else func
            elif isinstance(ch, ast.ClassDef):
                f = 'class'
            if isinstance(ch, ast.Expr) and isinstance(ch.value,
                                                       ast.Constant):
                continue
            if isinstance(ch, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
                continue
            if func is not None or not isinstance(ch, ast.stmt):
                if isinstance(ch, (ast.Assign, ast.AugAssign, ast.Expr,
                                   ast.Break, ast.Continue)):
                    put(f, ch, 'pass', 'delete')
                if isinstance(ch, ast.AugAssign):
                    n = copy.deepcopy(ch)
                    t = BIN.get(type(ch.op))
                    if t:
                        n.op = t()
                        put(f, ch, ast.unparse(n), 'augop')
                if isinstance(ch, (ast.If, ast.While)):
                    put(f, ch.test, 'False', 'cond')
                    if isinstance(ch, ast.If):
                        put(f, ch.test, 'True', 'cond')
                if isinstance(ch, (ast.ListComp,)) and \
                        ch.generators[0].ifs:
                    put(f, ch.generators[0].ifs[0], 'True', 'cond')
            if f is not None:
                for m in mutants_of(ch):
                    t = ast.unparse(m)
                    if isinstance(m, (ast.BinOp, ast.Compare, ast.BoolOp)):
                        t = '(' + t + ')'
                    put(f, ch, t, type(ch).__name__)
            walk(ch, f)
    walk(tree, None)
    for m in out:
        m['src'] = None
    return out


P = "getattr({}, '%s', %s)"
GUARDS = {      # by name of an argument
    'object': [
        P % ('Np_tracer', 0) + ' > 9',
        P % ('Np_tracer', 0) + ' == 1',
        P % ('steepest_descent', False),
        P % ('gamma', .5) + ' in (0., 1.)',
        P % ('theta', 1) + ' == 0',
        P % ('roi_grid', None) + ' is not None',
        P % ('dx', 1) + ' < 1',
        P % ('dx', 1) + ' > 60',
        P % ('diff_coeff', 0) + ' > 1',
        P % ('dry_depth', .1) + ' < .05',
        'len(' + P % ('particle_variables', ()) + ') > 1',
        'np.shape(' + P % ('depth', '()') + ') > (9, 9)',
        'len(np.shape(' + P % ('depth', '()') + ')) == 2 and '
        '{0}.depth.shape[0] < {0}.depth.shape[1]',
        'np.max(' + P % ('depth', 0) + ') > 8',
        'np.min(' + P % ('qx', -1) + ') >= 0',
        '(' + P % ('walk_data', None) + " or {{}}).get('xinds', "
        '[[]])[-1].__len__() > 9',
        '(' + P % ('walk_data', None) + " or {{}}).get('travel_times', "
        '[[0]])[0][-1] > 500',
        '(' + P % ('walk_data', None) + " or {{}}).get('travel_times', "
        '[[0]])[0][0] != 0'],
    'walk_data': [
        "len({}['xinds']) > 8",
        "len({}['xinds']) == 1",
        "len({}['xinds'][0]) == 1",
        "max(map(len, {}['xinds'])) > 9",
        "len({0}['xinds'][0]) != len({0}['xinds'][-1])",
        "{}['travel_times'][0][-1] > 500",
        "{}['travel_times'][0][0] != 0",
        "'depth' in {}",
        "len({0}['xinds'][-1]) > 2 and {0}['xinds'][-1][0] == "
        "{0}['xinds'][-1][-1]",
        "max({}['xinds'][0]) > 7"],
    'probs': ['np.count_nonzero({}) == 2', 'np.max({}) > 4',
              'np.max({}) < .01', 'len({}) > 9'],
    'seed_time': ['{} != 0', '{} < 0'],
    'target_time': ['{} is not None', '({} or 0) > 100',
                    '{} is not None and {} < 1'],
    'previous_walk_data': ['{} is not None'],
    'method': ["{} == 'exact'"],
    'Np_tracer': ['{} == 1', '{} > 9'],
    'sigma': ['{} > 1', '{} == 0'],
    'clip': ['{} == 100', '{} < 60'],
    'raster_size': ['{0}[0] > {0}[1]', '{0}[0] > 9'],
    'cellsize': ['{} < 1', '{} > 10'],
    'boundary': ['{} is not None'],
    'crop': ['not {}'],
    'k_nearest_neighbors': ['{} == 1', '{} > 4'],
    'coordinates': ['len({}) > 30', 'len({}) == 1'],
    'Q': ['np.min({}) < 0', 'np.max({}) > 100', 'len({}) == 1'],
    'exposure_times': ['len({}) > 9', 'len({}) == 1', 'max({}) > 500'],
    'timedelta': ['{} not in (1, 60, 3600, 86400)', '{} == 86400'],
    'uniform_timesteps': ['{}'], 'show_thresholds': ['{}'],
    'save_output': ['not {}'], 'folder_name': ['{} is None'],
    'window_size': ['{} % 2 == 0', '{} == 1', '{} > 5'],
    'exposure_data': ['len({}) == 1', 'len({}) > 9'],
    'resolution_factor': ['{} == 1', '{} > 3'],
    'elevation': ['{0}.shape[0] < {0}.shape[1]'],
    'interval': ['{} > 2', '{} == 1'], 'tail_length': ['{} > 8'],
    'iteration': ['{} == 0', '{} > 5'],
    'num_iter': ['{} > 3'], 'num_cores': ['{} == 1', '{} > 2'],
    'output_type': ["{} == 'csv'", "{} == 'npz'"],
    'num_steps': ['{} > 3'], 'handler': ['{} is not None'],
    'level': ['{0} != {0}.upper()'],
    'current_inds': ['len({}) > 5', 'len({}) == 1', '{}[0][0] == 1'],
    'grid': ['{} is not None'], 'cell_type': ['(np.asarray({}) == 1).any()'],
}
for _k in ('self', 'Particles', 'particle'):
    GUARDS[_k] = GUARDS['object']
for _k in ('regions', 'data'):
    GUARDS[_k] = ['np.shape({}) > (8,)']


def guarded(ms, seed):
    """The same changes, made only under a condition on the arguments."""
    rng = random.Random(seed)
    args = {}
    for f in FILES:
        tree = ast.parse(open(os.path.join(REPO, 'dorado', f + '.py')).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                a = n.args
                args.setdefault((f, n.name), [x.arg for x in
                                              a.args + a.kwonlyargs])
    out = []
    for m in ms:
        names = [a for a in args.get((m['module'], m['func']), ())
                 if a in GUARDS]
        if not names or m['kind'] == 'Slice':
            continue
        a = rng.choice(names)
        g = rng.choice(GUARDS[a]).replace('{{}}', 'dict()').replace(
            '{0}', a).replace('{}', a)
        m = dict(m, guard=g)
        if m['kind'] == 'delete':
            m['new'] = 'if not (%s): %s' % (g, m['old'])
        elif m['kind'] == 'augop':
            continue
        else:
            m['new'] = '((%s) if (%s) else (%s))' % (m['new'], g, m['old'])
        out.append(m)
    return out


def mutated(m):
    raw = open(os.path.join(REPO, 'dorado', m['module'] + '.py'), 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    return raw[:m['a']] + m['new'].encode() + raw[m['b']:]


def checks_for(m):
    t = MAP[m['module']]
    return t.get(m['func'], t['']).split()


STABLE = None


def tests_pass(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MPLCONFIGDIR=d + '/.mpl')
    try:
        r = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             '--timeout=60', 'tests'], cwd=d, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def run_checks(d, props, workers=1, scale=1):
    """The checks that catch it: (prop, message) of the first, or None."""
    odd = []
    for p in props:
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '/.out',
                   VERIF_SEED='1', VERIF_TIER='quick',
                   VERIF_WORKERS=str(workers),
                   VERIF_SCALE=str(scale))
        try:
            r = subprocess.run([PY, os.path.join(V, 'run.py'), p], cwd=V,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=1500)
        except subprocess.TimeoutExpired:
            odd.append((p, 'timeout'))
            continue
        o = r.stdout.decode(errors='replace')
        if r.returncode == 1 and 'VIOLATION property=' + p in o:
            return (p, o.splitlines()[0][:300]), odd
        if r.returncode != 0:
            odd.append((p, o[-300:]))
    return None, odd


def main():
    ms = [m for f in FILES for m in all_mutants(f)]
    seen, uniq = set(), []
    for m in ms:
        k = (m['module'], m['a'], m['b'], m['new'])
        if k not in seen and m['old'] != m['new']:
            seen.add(k)
            uniq.append(m)
    ms = uniq
    if sys.argv[1] == 'list':
        from collections import Counter
        for k, v in sorted(Counter((m['module'], m['func'])
                                   for m in ms).items(), key=str):
            print(k, v)
        print(len(ms))
        return
    if os.environ.get('GUARD'):
        ms = guarded(ms, int(os.environ['GUARD']))
    out = sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    if len(sys.argv) > 4:
        ms = [m for m in ms
              if re.search(sys.argv[4], m['module'] + '.' + str(m['func']))]
    random.Random(int(os.environ.get('MSEED', '1'))).shuffle(ms)
    if n:
        ms = ms[:n]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['module'], r['a'], r['b'], r['new']))
    par = int(os.environ.get('PAR', '8'))
    pool = Queue()
    base = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    for k in range(par):
        d = '%s/w%d' % (base, k)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'docs'))
        pool.put(d)
    fo = open(out, 'a')

    def one(m):
        if (m['module'], m['a'], m['b'], m['new']) in done:
            return
        d = pool.get()
        f = '%s/dorado/%s.py' % (d, m['module'])
        try:
            new = mutated(m)
            res = dict(m)
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                return
            open(f, 'wb').write(new)
            if not tests_pass(d):
                res['result'] = 'tests'
            else:
                hit, odd = run_checks(d, checks_for(m), 1, .03)
                if not hit:
                    hit, odd = run_checks(d, checks_for(m), 1,
                                          float(os.environ.get('MSCALE',
                                                               '.25')))
                res['result'] = 'caught' if hit else 'survived'
                res['hit'], res['odd'] = hit, odd
            fo.write(json.dumps(res) + '\n')
            fo.flush()
        finally:
            shutil.copy(os.path.join(REPO, 'dorado', m['module'] + '.py'), f)
            pool.put(d)

    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
