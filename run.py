#!/opt/venv/bin/python
"""run.py PROPERTY [--replay FILE]: decide one property (see DESIGN.md)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def run():
    from vlib import core
    prop = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = os.path.abspath(sys.argv[3])
    mod = importlib.import_module('checks.' + prop.lower())
    return core.main(prop, mod, replay)


if __name__ == '__main__':
    try:
        rc = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
