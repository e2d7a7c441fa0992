#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (kept in step with props.py)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'lib'))
from proptable import PROPERTIES
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
m = {'version': 1,
     'setup_cmd': 'make -s -j8 -C ixa OUT=/verif/.build',
     'checks': [], 'not_applicable': [],
     'notes': 'every check rebuilds the engine if needed, lowers /repo\'s current source to LLVM IR and decides the rules on it; nothing of the code under test is executed'}
for p in PROPERTIES:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % p['id'],
                            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
