#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (development aid)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS

with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        json.dump({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])], 'observe_at': p.get('observe', [])}
        }, f)
        f.write('\n')
m = {'version': 1, 'setup_cmd': 'bash nsa/build_nsx.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks are needed: the checks read /repo as it is. Exit 2 means the analysis lost its anchors (sources no longer parse, or a rule matched nothing).'}
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
