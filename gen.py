#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for k, p in props.CHECKS.items():
        f.write(json.dumps({'id': k, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
TECH = 'symbolic execution of the crate\'s LLVM IR, assertions decided by SMT (Z3); models replayed natively'
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [dict(property=k, quick_cmd='./check.py %s --tier quick' % k, thorough_cmd='./check.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k, technique=TECH, level='model_checking',
        level_note='Holds for every value within the bounds: ' + p['bounds'] + '. ' + p['note'] + ' Trusts: the symbolic executor and Z3 (sampled path models are replayed against the native build on every run), rustc/LLVM, the checksum model.') for k, p in props.CHECKS.items()],
     'not_applicable': props.NOT_APPLICABLE if hasattr(props, 'NOT_APPLICABLE') else [], 'notes': 'See DESIGN.md. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
