#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the check modules present."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mc', pid.lower() + '.py')):
        t = TECH[pid]
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python run.py {} --tier quick'.format(pid),
            thorough_cmd='/opt/venv/bin/python run.py {} --tier thorough'
            .format(pid),
            technique=t[0], level='model_checking', level_note=t[1]))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B -c "import numpy, pandas, yaml"',
         checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
