#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                           'technique': p['technique'], 'level': p.get('level', 'model_checking'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications under specs/, checked with TLC and bound to the code by replay of explored transitions and by '
              'judging recorded behaviour; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
