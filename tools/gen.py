"""Writes properties.jsonl and MANIFEST.json from mc/props.py (run after editing it)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc.props import PROPS, NOT_APPLICABLE   # noqa

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                'observe_at': p['observe'],
                'hook_needed': None,
            },
        }
        if p.get('state'):
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')

checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')):
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./check.sh {p["id"]} quick',
        'thorough_cmd': f'./check.sh {p["id"]} thorough',
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    })
na = list(NOT_APPLICABLE)
claimed = {c['property'] for c in checks}
for p in PROPS:
    if p['id'] not in claimed and p['id'] not in {x['property'] for x in na}:
        na.append({'property': p['id'], 'reason': 'check still being built'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
