#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py"""
import json, os
from props import PROPS
R = os.path.dirname(os.path.abspath(__file__))
NA = {
 'N01': 'pure function of one value: no schedule, time, I/O or fault for the simulator to decide',
 'N02': 'pure functions of their input: no schedule, time, I/O or fault for the simulator to decide',
 'N04': 'the viewer needs Qt, which is not installed here, so it cannot be built or run under a simulator',
}
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --thorough' % i,
        technique='deterministic simulation with fault injection: seeded runs of the real code against a simulated environment, checked against a reference model',
        level='exploration',
        level_note='Seeded search over schedules, faults and inputs; every violation is minimised and must replay exactly in a fresh process. Assumes: ' + '; '.join(PROPS[i].get('assumptions', [])),
        evidence_file='evidence/%s.json' % i))
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3 build.py',
    hooks=dict(guard='none', enable='no hooks in /repo: the simulator replaces symbols (allocator, clock, PC/SC service, input and output) when linking', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='Replay a violation with: python3 run.py --replay FILE. Determinism proof: python3 run.py --determinism [Pnn ...]. Known findings and repaired defects: known_findings.txt.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
