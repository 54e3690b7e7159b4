#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in checks/ is claimed."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
TECH = {}
exec((V / 'tools/notes.py').read_text())
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    i = json.loads(line)['id']
    if (V / f'checks/{i.lower()}.py').exists():
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f'./check.py {i} quick', thorough_cmd=f'./check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked with TLC; conformance drivers in checks/ and harness/. '
                     'No hooks in /repo: everything is observed through the public interface.'),
          open(V / 'MANIFEST.json', 'w'), indent=1)
