"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS  # noqa: E402
PROPS.sort(key=lambda p: p['id'])

man = {'version': 1, 'setup_cmd': './run.sh selftest', 'checks': [],
       'not_applicable': [],
       'notes': 'Every check imports the code from /repo working tree in '
                'fresh processes; no hooks are needed.  run.sh replay FILE '
                'replays a shrunk case without the generator library.'}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}},
            ensure_ascii=False) + '\n')
        if os.path.exists(os.path.join(V, 'checks',
                                       p['id'].lower() + '.py')):
            man['checks'].append({
                'property': p['id'],
                'quick_cmd': f"./run.sh check {p['id']} quick",
                'thorough_cmd': f"./run.sh check {p['id']} thorough",
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': 'property-based testing: ' + p['tech'],
                'level': 'exploration',
                'level_note': p['note']})
        else:
            man['not_applicable'].append({
                'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
print(len(PROPS), 'properties,', len(man['checks']), 'checks')
for p in PROPS:
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
