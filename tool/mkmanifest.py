#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p.get('state', [])],
                         'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 vlib/facts.py',
     'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                 'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Static analysis only: a clang-18 LibTooling fact extractor (tool/factgen.cc) reads /repo\'s current sources with the build\'s flags; vlib/ decides the properties on the typed syntax trees, control-flow graphs and call graph. No hooks in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
