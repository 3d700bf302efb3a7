#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py (run by hand after editing it)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                            'quantifier': {'over': p['over'], 'text': ' '.join(p['quant'].split())},
                            'why_tests_cant': ' '.join(p['why'].split()),
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
man = {'version': 1,
       'setup_cmd': 'python3 -B -c "import sys; sys.path.insert(0, \'engine\'); import base; base.build_tool()"',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 -B check.py %s quick' % p['id'],
                   'thorough_cmd': 'python3 -B check.py %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other',
                   'level_note': ' '.join(p['note'].split())} for p in P],
       'not_applicable': [{'property': p['id'], 'reason': ' '.join(p['reason'].split())} for p in NA]}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
