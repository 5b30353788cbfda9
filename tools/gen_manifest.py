#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the props/ modules present."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
 'C90': 'pure function of its input (message text format/parse): no schedule, clock, fault or interleaving for a '
        'simulator to decide; wire transport of arbitrary messages is covered byte-exactly by C01 and C16',
 'C91': 'pure function of its input (argument type codecs): no schedule, clock, fault or interleaving for a '
        'simulator to decide',
}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, '
                         'reference-model oracle)',
            'level': 'exploration',
            'level_note': 'seeded random scenarios, schedules and faults over the real katcp/tornado code under a '
                          'virtual clock, network and thread scheduler; samples, does not enumerate'})
    else:
        na.append({'property': i, 'reason': 'simulation check not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import sim.world"',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
