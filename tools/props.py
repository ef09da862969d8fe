#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (properties without a check are left out)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, technique, note))


exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

P = [p for p in P if os.path.exists(os.path.join(V, 'checks', p[0]['id'] + '.py'))]
P.sort(key=lambda p: p[0]['id'])
for p, _, _ in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p, tech, note in P:
    c = 'python3 checks/%s.py --tier ' % p['id']
    m['checks'].append({'property': p['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough',
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': tech,
                        'level': 'exploration', 'level_note': note})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
