#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the table below. usage: tools/manifest.py"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
                           evidence_file=f'evidence/{i}.json', technique=t, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_YET.get(i, 'the check is not built yet')))
m = dict(version=1, setup_cmd='./check.sh build',
         hooks=dict(guard='jester_verif', enable='RUSTFLAGS="--cfg jester_verif" (set by check.sh); off in every normal build',
                    source_commits=HOOKS),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
