#!/usr/bin/env python3
"""Regenerates DESIGN.md: the prose is here; bounds come from the modules, costs from design_costs.json,
the table of planted changes from seeded_results.json (written by the author's tools, see the end of the file)."""
import ast, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))

HEAD = open('design_head.md').read()
NOTES = json.load(open('design_notes.json'))
COST = json.load(open('design_costs.json'))
SEEDS = json.load(open('seeded_results.json'))

out = [HEAD.rstrip(), '', '## The properties, one by one', '']
for line in open('properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    consts, doc, har = {}, '', []
    t = ast.parse(open('mc/props/%s.py' % pid.lower()).read())
    docs = {n.name: (ast.get_docstring(n) or '').split('\n\n')[0].replace('\n', ' ') for n in t.body if isinstance(n, ast.FunctionDef)}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k in ('BOUNDS', 'ASSUMPTIONS'):
                consts[k] = ast.literal_eval(n.value)
            if k == 'HARNESSES':
                har = [(a.value, b.id) for a, b in zip(n.value.keys, n.value.values) if isinstance(b, ast.Name)]
    n = NOTES[pid]
    out += ['### %s %s' % (pid, p['title']), '',
            '*Specified:* ' + p['statement'], '',
            '*Enumerated:* ' + ' '.join(consts['BOUNDS'].split()), '',
            '*Harnesses:* ' + '; '.join('`%s` (%s)' % (a, docs[b].rstrip('.')) for a, b in har) + '.', '',
            '*Oracle:* ' + n['oracle'], '',
            '*What the tests cannot reach:* ' + p['why_tests_cant'] + (' ' + n['why'] if n.get('why') else ''), '']
    a = consts.get('ASSUMPTIONS')
    if a:
        out += ['*Outside:* ' + ('; '.join(a) if isinstance(a, (list, tuple)) else a) + '.', '']
    if pid in COST:
        out += ['*Cost:* ' + COST[pid], '']
out += ['## Planted changes', '', 'Each was written from the text of a property and the code, confirmed to pass the stable tests and to fail its '
        'demonstration. "Caught by" is the check of its property unless another is named; "at first" says whether the check of the time caught it '
        'before it was strengthened for it.', '', '| change | property | needs | caught by | at first |', '|---|---|---|---|---|']
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s))
    r = SEEDS.get(s, {})
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), r.get('caught', m['property']), r.get('first', 'yes')))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
