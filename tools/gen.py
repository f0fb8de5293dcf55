#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import catalog as c  # noqa: E402

c.PROPS.sort(key=lambda p: p['id'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in c.PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=p['mechanism']))) + '\n')
checks = []
for p in c.PROPS:
    if p.get('na'):
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd=f'/opt/venv/bin/python check.py {p["id"]} quick',
        thorough_cmd=f'/opt/venv/bin/python check.py {p["id"]} thorough',
        technique='contract-based deductive verification of the real Python '
                  'code: contracts over the functions as imported from /repo, '
                  'verification conditions generated by executing the '
                  'instrumented source on symbolic values (loops cut at '
                  'invariants), discharged by z3/cvc5; counter-models '
                  'replayed on the plain code',
        level=p['level'], level_note=p['note']))
json.dump(dict(
    version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
    checks=checks,
    not_applicable=[dict(property=p['id'], reason=p['na'])
                    for p in c.PROPS if p.get('na')],
    notes=c.NOTES), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
