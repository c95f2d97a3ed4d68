#!/opt/venv/bin/python
"""replay.py FILE: run one counterexample against the real code."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    d = json.load(open(sys.argv[1]))
    from symx import concrete
    h = importlib.import_module('harness.' + d['property'].lower())
    e = concrete.Engine(getattr(h, d['fn']), d['params'], d['model']).run()
    if '--json' in sys.argv:
        print('RESULT ' + json.dumps(dict(
            failures=e.failures, stopped=e.stopped, err=e.err), default=str))
        return 0
    print('case', d['case'], 'inputs', json.dumps(d['model']))
    for lab, det in e.failures:
        print('FAILS:', lab, det)
    if e.err:
        print('error:', e.err)
    if not e.failures:
        print('holds on this input')
    return 1 if e.failures else 0


if __name__ == '__main__':
    sys.exit(main())
