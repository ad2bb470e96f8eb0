"""seed.py [ID...]: (re)make seeded/ID/patch.diff from tools/seeds.py, and
confirm it in a scratch copy: applies, the tests pass, the demo tells the
changed code from the unchanged. With CHECK=1 the checks named run too."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS      # noqa: E402
from mutate import tests_pass, run_checks, V, REPO   # noqa: E402

ids = sys.argv[1:] or list(SEEDS)
base = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
try:
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(base, i)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'docs'))
        diff = ''
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            a = open(p).read()
            assert a.count(old) == s.get('count', 1), (i, f, a.count(old), old)
            open(p, 'w').write(a.replace(old, new))
        for f in sorted({e[0] for e in s['edits']}):
            a = open(os.path.join(REPO, f)).read().splitlines(True)
            b = open(os.path.join(d, f)).read().splitlines(True)
            diff += ''.join(difflib.unified_diff(a, b, 'a/'+f, 'b/'+f))
        o = os.path.join(V, 'seeded', i)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(o + '/demo.sh', 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1 '
            '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(o + '/meta.json', 'w'), indent=1)
        applies = subprocess.run(['git', '-C', REPO, 'apply', '--check',
                                  o + '/patch.diff']).returncode == 0
        r = [subprocess.run(['bash', o + '/demo.sh'], cwd=w, timeout=300,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
             for w in (REPO, d)]
        ok = tests_pass(d)
        print(i, 'applies', applies, 'demo unchanged', r[0].returncode,
              'changed', r[1].returncode, 'tests', ok, flush=True)
        if r[0].returncode or not r[1].returncode:
            for x in r:
                print(x.stdout.decode()[-1500:])
        if os.environ.get('CHECK'):
            print('   ', run_checks(d, [s['property']], 4), flush=True)
finally:
    shutil.rmtree(base)
