"""Margins of the minimum counters, from the evidence."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for i in range(1, 34):
    p = 'C%02d' % i
    m = importlib.import_module('checks.c%02d' % i)
    try:
        ev = json.load(open(os.environ.get("VERIF_OUT", V) + "/evidence/%s.json" % p))
    except OSError:
        print(p, 'no evidence'); continue
    o = ev['coverage']['observed']
    low = ['%s %d/%d' % (k, o.get(k, 0), v) for k, v in m.MIN.items() if o.get(k, 0) < 1.6*v]
    print(p, ev['tier'], 'wall', ev['wall_s'], 'LOW ' + ', '.join(low) if low else '')
