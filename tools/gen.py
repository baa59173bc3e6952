#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe']}
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']},
                            'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['title']
TECH = 'bounded symbolic execution of the Go SSA of /repo (full app wiring), assertions decided by Z3, counterexamples replayed natively'
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none (harnesses are overlaid into package app; /repo has no hooks)', 'enable': 'nothing to enable', 'source_commits': []},
     'checks': [{'property': p['id'],
                 'quick_cmd': './check.sh %s -tier quick' % p['id'],
                 'thorough_cmd': './check.sh %s -tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': TECH, 'level': 'other',
                 'level_note': 'Holds for every value of the symbolic inputs within the stated bounds. Bounds: ' + p['bounds'] +
                 ' Trusted: the engine (SSA builder, interpreter, models of store, codec, bech32, big integers), the solver. Paths the engine cannot follow are listed as inconclusive in the evidence and never reported as violations.'}
                for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Every check executes the current /repo sources symbolically; see DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
