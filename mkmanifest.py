#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property whose module exists in mc/props is claimed."""
import ast, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open('properties.jsonl'):
    p = json.loads(line)
    f = 'mc/props/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'its check is not built yet'})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            consts[n.targets[0].id] = n.value.value
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh %s' % p['id'],
        'thorough_cmd': './run.sh %s --thorough' % p['id'],
        'technique': consts.get('TECHNIQUE', 'stateless explicit-state model checking of the real code: exhaustive '
                                'enumeration of bounded executions, each compared with a reference model'),
        'level': consts.get('LEVEL', 'model_checking'),
        'level_note': ('Every execution within these bounds is run on the code in /repo and compared with an independent '
                       'reference model: ' + ' '.join(consts.get('BOUNDS', '').split()) + ' Trusted: the reference model '
                       '(mc/refmodel.py and the module itself), PyPy/NumPy, and the Python 2 import hook the sandbox tests use. '
                       'Beyond the bounds nothing is claimed.' +
                       (' Assumes: ' + ' '.join(consts['ASSUMPTIONS'].split()) if isinstance(consts.get('ASSUMPTIONS'), str) else '')),
    })
m = {'version': 1, 'setup_cmd': './run.sh --self-test', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the checks drive the public interface of the code in /repo. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
