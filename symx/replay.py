"""
Replay of a counterexample (or of path witnesses) on the unpatched code.

    /opt/venv/bin/python /verif/symx/replay.py FILE.json

FILE.json: {"module": "props.p01", "property": "P01", "runs": [{"params":..., "values":...}, ...]}
Prints one JSON line with the outcome of each run; exit 1 if any assertion failed.
"""
import importlib
import json
import os
import resource
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    with open(sys.argv[1]) as f:
        job = json.load(f)
    from symx import conh
    # a run that does not end may not take the memory of others
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    real_out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    conh.prepare()
    mod = importlib.import_module(job['module'])
    if hasattr(mod, 'setup'):
        mod.setup(False)
    res = [conh.run_concrete(mod, r['params'], r['values']) for r in job['runs']]
    os.dup2(real_out, 1)
    print(json.dumps(res))
    sys.exit(1 if any(r['failed'] for r in res) else 0)


if __name__ == '__main__':
    main()
