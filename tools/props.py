#!/usr/bin/env python3
"""The property table; writes properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/cr/sparse/_src/'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, note, claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claimed=claimed))


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': [x if '/' in x and x.startswith('src') else S + x for x in p['files']], 'mechanism': p['mech']}}) + '\n')
TECH = ('contract-based deductive verification: contracts on the functions of /repo, obligations generated from the traced real '
        'source (JAX jaxprs) and discharged by an algebraic normaliser, z3 and cvc5; counterexamples replayed on the real code')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py --property %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 run.py --property %s --tier thorough' % p['id'], 'technique': TECH, 'level': 'proof',
                 'level_note': p['note']} for p in PROPS if p['claimed']],
     'not_applicable': NA}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
