#!/usr/bin/env python3
"""The one table behind properties.jsonl and MANIFEST.json (run: python3 tool/catalog.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalog_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'mkdir -p .build && bash tool/build.sh .build/setup-cpx && rm -f .build/setup-cpx',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 sa/check.py ' + p['id'], 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if not p['na']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'not applicable')
