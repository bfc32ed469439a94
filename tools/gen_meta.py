#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and checks_table.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks_table import TABLE
PR = []; NA = {}
NOTESTS = 'The stable tests are only those of the vendored decision-diagram library; no test runs the planner at all.'
CUTESTS = "The library's own tests run a few fixed circuits and matrices in one configuration, without a single failing allocation, time-out or full disk."
def p(id, title, st, over, text, why, files, mech, state=None, observe=None, hook=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    PR.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na: NA[id] = na
exec(open(os.path.join(H, 'tools', 'properties_text.py')).read())
with open(H + '/properties.jsonl', 'w') as f:
    for x in PR: f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in PR]; assert len(set(ids)) == len(ids)
for x in PR:
    assert len(x['title']) <= 80, x['id']
    assert x['statement'].count('. ') <= 2, (x['id'], x['statement'].count('. '))
for t in TABLE: assert t in ids, t
for i in ids: assert (i in TABLE) != (i in NA), i + ' must be claimed or not applicable'
M = {'version': 1, 'setup_cmd': 'python3 build.py engine cudd', 'checks': [], 'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
     'notes': 'Every check builds the simulator from /repo\'s working tree into /verif/build (git-ignored), replays known findings and a regression corpus, then searches seeds. Nearly all seams are link-time (malloc, clocks, rand, read/write, system, the SAT solver interface, the decision-diagram manager constructor); the hooks only make two constants of the decision-diagram library choosable: nodes per memory chunk, and cache misses between looks at the clock.',
     'hooks': {'guard': 'PANDA_VERIF', 'enable': 'build.py compiles everything with -DPANDA_VERIF', 'source_commits': ['8054026', '8d1d6eb']}}
for i in ids:
    if i in TABLE:
        T = TABLE[i]
        M['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': T.get('tech', 'deterministic simulation with fault injection: seeded search, reference-model oracle'), 'level': T['level'],
            'level_note': T.get('note', 'Sampling: the property held on every simulated run of the seeds explored. ') + ' Trusts: ' + '; '.join(T['assume']) + '.'})
with open(H + '/MANIFEST.json', 'w') as f: json.dump(M, f, indent=1); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in PR: jsonschema.validate(x, s)
except ImportError: pass
print(len(PR), 'properties,', len(M['checks']), 'claimed')
