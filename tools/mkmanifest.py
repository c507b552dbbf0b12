#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the monitors that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s/main.go' % (V, i.lower())) and i in CHECKS:
        t, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3 run.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=run.LEVEL.get(i, 'exploration'), level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3 run.py --build-all', hooks=dict(guard='none', enable='no hooks: monitors are laid over /repo/internal/verifh with go build -overlay', source_commits=[]), checks=checks, not_applicable=na,
         notes='Every check builds its monitor from /repo and /verif/harness with go build -overlay and runs it as an unprivileged user in a scratch directory. Exit 2 means inconclusive.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
