import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta

props = sorted(meta.P, key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in props:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    h = importlib.import_module('props.' + p['id'].lower())
    b = h.BOUNDS if isinstance(h.BOUNDS, str) else h.BOUNDS['quick']
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of the real code, z3 deciding every branch and assertion',
        'level': 'model_checking',
        'level_note': 'Holds for every input within the bounds (quick: %s). Assumes: %s. Trusted: z3, the symbolic run-time (validated by replaying sampled paths on the real code).%s'
                      % (b, '; '.join(h.ASSUMPTIONS) or 'nothing else', ' ' + p['note'] if p['note'] else '')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. Every check re-reads /repo\'s sources; the extension is rebuilt in a scratch directory when needed.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
