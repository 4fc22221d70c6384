#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
from notes import NOTES, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        tech, note = NOTES[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py ' + i + ' --thorough',
                                technique=tech, level='model_checking', level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'the check of this property is still being built')))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
