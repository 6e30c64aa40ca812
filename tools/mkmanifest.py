import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import plan
H = os.path.join(os.path.dirname(__file__), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/selftest.py',
    'checks': [],
    'not_applicable': [{'property': i, 'reason': plan.NOT_APPLICABLE[i]} for i in ids if i not in plan.PROPS],
    'notes': 'No hooks in /repo: the verifier reads the sources, the search harness uses the public API.',
}
for i in ids:
    if i in plan.PROPS:
        P = plan.PROPS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': P.get('technique', 'contracts on the real functions, discharged by Verus (deductive verification)'),
            'level': P['level'], 'level_note': P['note']})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
