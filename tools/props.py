#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over operation schedules and injected faults, checked against a reference model'
L = 'library/'
def P(id, title, statement, over, text, why, files, mech, note=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a, '_note': note}
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in CLAIMED + NA:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=True) + '\n')
for p in CLAIMED + NA:
    assert len(p['title']) <= 80, p['id']
    for fn in p['anchors']['files']:
        assert os.path.exists('/repo/' + fn) or glob.glob('/repo/' + fn), (p['id'], fn)
man = {'version': 1, 'setup_cmd': 'bin/setup',
 'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s' % p['id'], 'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
   'technique': TECH, 'level': 'exploration', 'level_note': p['_note']} for p in CLAIMED],
 'not_applicable': [{'property': p['id'], 'reason': p['_note']} for p in NA],
 'notes': 'No hooks in /repo: entropy, clock, allocator, streams and user callbacks are reached through existing seams (interposition of std engines, std::chrono clocks, operator new/delete, streambufs, monoid parameters). See DESIGN.md.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(CLAIMED), 'claimed', len(NA), 'not applicable')
