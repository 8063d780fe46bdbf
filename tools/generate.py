#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json out of tools/table.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import table  # noqa: E402

properties, checks = [], []
for p in table.P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    assert os.path.exists(os.path.join(ROOT, 'mon', 'checks', p['id'].lower() + '.py')), p['id']
    for name in p['files']:
        assert os.path.exists(os.path.join('/repo', name)), (p['id'], name)
    anchors = {
        'files': p['files'],
        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
        'hook_needed': None,
        **p['anchors'],
    }
    properties.append({
        'id': p['id'],
        'title': p['title'],
        'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': anchors,
    })
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bin/check {p["id"]} --tier quick',
        'thorough_cmd': f'bin/check {p["id"]} --tier thorough',
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    })

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as file:
    for p in properties:
        file.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
    json.dump(
        {
            'version': 1,
            'setup_cmd': 'bin/setup',
            'checks': checks,
            'not_applicable': [],
            'notes': (
                'Pure python: the checks import marsh from the working tree of '
                '/repo, there is nothing to build and no hook in /repo.'
            ),
        },
        file,
        indent=1,
    )
    file.write('\n')
print(len(properties), 'properties')
