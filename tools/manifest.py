"""Writes MANIFEST.json from the checks."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

TECH = {
    1: 'online monitor of every appended move against a domain model',
    2: 'online monitor of every appended move against depth and land',
    3: 'frequencies of observed moves tested against a reference model',
    4: 'monitor of each move against a reference model, tie frequencies',
    5: 'monitor of each time gained against a reference model, with '
       'statistical tests of the dispersion',
    6: 'history checked against a model outside of the code, after every '
       'operation',
    7: 'recorded histories replayed against the stopping rule',
    8: 'oracle on seeded positions, statistical tests, invalid inputs',
    9: 'online comparison of tracked values with the grids in use',
    10: 'differential monitoring of pairs of runs',
    11: 'inputs and grids compared before and after; pairs of runs',
    12: 'differential monitoring of repeated runs, in and between processes',
    13: 'offline checker over the combined histories of workers',
    14: 'round-trip oracle',
    15: 'cell-by-cell oracle by brute force',
    16: 'offline recomputation from recorded histories, conservation',
    17: 'offline recomputation from recorded histories, partition',
    18: 'offline recomputation from recorded exposure times',
    19: 'offline recomputation from recorded histories',
    20: 'offline recomputation from recorded histories',
    21: 'oracle in exact arithmetic over results',
    22: 'oracle over recorded histories, messages caught',
    23: 'differential monitoring, files read back, figures recorded',
    24: 'differential monitoring, files read back, figures recorded',
    25: 'recorded figures against recomputed curves, messages caught',
    26: 'model of the configuration against records at handlers and streams',
    27: 'recorded figures against recorded histories',
    28: 'inputs and results compared with deep copies, interleaved run',
    29: 'differential monitoring of interrupted runs',
    30: 'recorded frames at a stand-in for the movie writer',
    32: 'whole runs against what the flow as such implies, statistical '
        'tests',
    33: 'messages and warnings caught against a model of the settings',
    34: 'fault injection, histories compared with those of an undisturbed '
        'twin',
    35: 'differential monitoring of runs in flows that are alike where it '
        'matters',
    31: 'differential monitoring of runs with and without options given',
}

checks = []
for i in range(1, 36):
    p = 'C%02d' % i
    m = importlib.import_module('checks.c%02d' % i)
    note = ('Held on the executions generated (%d cases quick, up to %d '
            'thorough), none excluded but: %s. Trusts numpy, scipy, '
            'matplotlib and the reference model in vlib.'
            % (m.N['quick'], m.N['thorough'],
               '; '.join(getattr(m, 'ASSUMPTIONS', [])) or 'nothing'))
    checks.append(dict(
        property=p,
        quick_cmd='/opt/venv/bin/python run.py ' + p,
        thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py ' + p,
        evidence_file='evidence/%s.json' % p,
        technique='runtime monitoring: ' + TECH[i],
        level='exploration', level_note=note))

man = dict(version=1,
           setup_cmd='/opt/venv/bin/python -c "import vlib.boot"',
           checks=checks, not_applicable=[],
           notes='No hooks in /repo: everything is observed at public '
                 'interfaces. No native code and no threads, so sanitizers '
                 'and race detectors do not apply. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
