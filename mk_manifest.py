#!/usr/bin/env python3
"""Regenerates MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = jobs.PROPS.get(i)
    if p:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=p['technique'], level=p['level'],
                           level_note=p.get('note') or 'Random/structured generation against an explicit oracle; holds on everything generated, no proof of absence. Trusts the compiler, libc and kernel of the sandbox.'))
    else:
        na.append(dict(property=i, reason=jobs.NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 run.py --selfcheck', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every check uses the public API (plus detail::fcontext for C17). Binaries are built from /repo into /verif/.work (git-ignored).')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
