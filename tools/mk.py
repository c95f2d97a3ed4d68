"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from props import P, NA  # noqa: E402

checks, na = [], []
reasons = dict(NA)
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
        i = p['id']
        if i in reasons:
            na.append(dict(property=i, reason=reasons[i]))
            continue
        src = open(f'{ROOT}/harness/{i.lower()}.py').read()
        ns = {}
        import ast
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in (
                    'BOUNDS', 'OUTSIDE'):
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        cmd = f'/opt/venv/bin/python check.py {i} --tier '
        checks.append(dict(
            property=i, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
            technique='bounded symbolic execution of the real Python sources '
                      'with an SMT solver (z3) deciding every path and '
                      'assertion; counterexamples replayed on the real code',
            level='model_checking',
            level_note='Holds for all values within: ' + ns['BOUNDS']['quick']
            + '. Outside: ' + ns.get('OUTSIDE', '-')
            + '. Real arithmetic stands in for floating point.'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
               checks=checks, not_applicable=na),
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
