#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
T = {
 'default': 'TLA+ specification model-checked with TLC; its exported transition system and tables are replayed into the real code call by call with every handle observed; recorded executions are validated by TLC',
}
NOTE = {}
checks = []
skip = set(json.load(open(V + '/tools/skip.json'))) if os.path.exists(V + '/tools/skip.json') else set()
for p in props:
    i = p['id']
    if i in skip:
        continue
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                   'technique': T.get(i, T['default']), 'level': 'exploration' if i == 'C22' else 'model_checking',
                   'level_note': NOTE.get(i, 'bounded: the abstract state space is exhausted within the constants of the models; concrete texts, values and histories are generated from it (covers and seeded walks)')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'check in preparation'} for p in props if p['id'] in skip],
     'notes': 'No hooks in /repo. Every check compiles /repo\'s headers itself in a scratch directory under TMPDIR and removes it.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
