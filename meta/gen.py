import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], **({'observe_at': p['observe']} if p['observe'] else {}), 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q cv && python3-vt -c "import z3"',
     'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3-vt cv/run.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt cv/run.py %s' % p['id'],
                 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'See DESIGN.md. One engine (cv/), one driver per property (cv/props/).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
