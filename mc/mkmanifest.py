"""Regenerate MANIFEST.json from properties.jsonl and the check modules present."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
TECH = {}
with open(os.path.join(VERIF, 'mc', 'techniques.json')) as f:
    TECH = json.load(f)
checks, na = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    if os.path.exists(os.path.join(VERIF, 'mc', 'checks', p.lower() + '.py')) and p in TECH and 'technique' in TECH[p]:
        checks.append({'property': p, 'quick_cmd': 'bin/check %s --tier quick' % p,
                       'thorough_cmd': 'bin/check %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': TECH[p]['technique'], 'level': 'model_checking',
                       'level_note': TECH[p]['note']})
    else:
        na.append({'property': p, 'reason': TECH.get(p, {}).get('reason', 'check not built yet')})
m = {'version': 1,
     'setup_cmd': 'bin/setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks are compiled into /repo: the checks import the working tree and '
               'intercept the operating system boundary (open, flock, stat, rename, subprocess) from outside.',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks are bounded-exhaustive explorations of the real implementation (stateless model checking) '
              'against reference models; see DESIGN.md.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
