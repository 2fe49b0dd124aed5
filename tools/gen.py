#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table, so that the two never disagree)."""
import json, os, sys, glob, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, HOOK_COMMITS
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS + [n for n in NA]:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': m, 'where': w} for m, w in p.get('mech', [])],
                         'observe_at': p.get('observe', []), 'hook_needed': p.get('hook')}}
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if not glob.glob(os.path.join(V, 'contracts', p['id'] + '*.c')):
        print('no contracts yet:', p['id']); continue
    kinds = set()
    for f in glob.glob(os.path.join(V, 'contracts', p['id'] + '*.c')):
        for l in open(f):
            if l.startswith('//@ob'):
                kinds.add(('proof' if 'kind=proof' in l else 'bounded', 'tier=fallback' in l))
    level = 'proof' if ('proof', False) in kinds else 'other'
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'contract-based deductive verification of the real C source (cbmc)',
                   'level': level, 'level_note': p['note']})
man = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
       'hooks': {'guard': 'KASYNC_CONTRACTS', 'enable': 'goto-cc -DKASYNC_CONTRACTS=1 (only the verifier defines it; '
                 'the contract texts live in /verif/contracts)', 'source_commits': HOOK_COMMITS},
       'checks': checks, 'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
       'notes': 'See DESIGN.md. Known findings and fixed defects: known-findings.txt.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
