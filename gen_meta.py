#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from plan.py."""
import json, os
from plan import PROPS

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            a['state'] = p['state']
        if p.get('trace'):
            a['hook_needed'] = 'overlay/trace_hook.go.txt, added by a build overlay (nothing is committed in /repo)'
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')

checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': p['level'],
        'level_note': (p['note'] + ' ' if p['note'] else '') +
        'Bounded by the cases generated (%d quick, %d thorough); trusts the oracle (%s) and the Go toolchain.' % (p['quick'], p['thorough'], p['oracle']),
    })
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 run.py --setup',
        'checks': checks,
        'not_applicable': [],
        'notes': 'The commits in /repo are repairs ("fix:") only, listed in KNOWN_FINDINGS.txt; there are no hooks in /repo. C29 adds '
                 'one file to the package through a build overlay (overlay/trace_hook.go.txt).',
    }, f, indent=1)
    f.write('\n')
