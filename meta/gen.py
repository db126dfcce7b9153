import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, T
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'] or ['public Python API'], 'hook_needed': None}}) + '\n')
NOTE = ('Every assertion is decided by z3 for all values within the bounds stated per harness in the evidence file; paths the engine could not follow, '
        'timeouts and unknowns are listed as inconclusive there. Trusts: the proxy/numpy layer in symex (cross-checked by replaying path witnesses on '
        'the real code), real arithmetic for floats, and the pure-Python implementations of the Cython modules.')
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': [], 'not_applicable': [],
     'notes': 'One entry point: check.py; engine in symex/, harnesses in checks/. See DESIGN.md.'}
for p in PROPS:
    if os.path.exists(V + '/checks/%s.py' % p['id'].lower()):
        m['checks'].append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': T, 'level': 'model_checking', 'level_note': p['note'] or NOTE})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'no check built'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
