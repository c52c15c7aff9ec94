#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'


def main():
    if os.environ.get('SYMX_REEXEC') != '1' and os.path.exists(VT):
        os.environ['SYMX_REEXEC'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.environ.setdefault('OMP_NUM_THREADS', '1')
        os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
        os.environ.pop('PYTHONPATH', None)
        os.environ['PYTHONWARNINGS'] = 'ignore'
        os.execv(VT, [VT, os.path.join(HERE, 'check.py')] + sys.argv[1:])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    sys.path.insert(0, HERE)
    import importlib
    name = 'props.' + prop.lower()
    mod_file = os.path.join(HERE, 'props', prop.lower() + '.py')
    if not os.path.exists(mod_file):
        print('no such check: %s' % prop)
        sys.exit(2)
    from symx import runner
    try:
        rc = runner.main(name, tier)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
