#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl: a check for every property that has a registered family."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C90': 'Memory safety of the pointer representation is not a property of the states and transitions the specification describes (values, not addresses): no trace the implementation can record shows it unless it crashes, which every other check does notice.'}
TECH = 'TLA+ specification of the language executed by TLC; recordings of the implementation are checked against it (trace validation)'
NOTE = 'Every recording of the listed families (generated and enumerated programs, run on the real code with and without optimisation) is accepted by the TLA+ specification, judged by TLC. It is exploration of inputs against a complete model of what each program must do; trusted: the specification, the syntax translator tools/cordyfront.py, TLC.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in families.REGISTRY:
        f = families.REGISTRY[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=getattr(f, 'technique', TECH), level=f.level, level_note=getattr(f, 'note', NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='The specification is spec/*.tla (TLA+, TLC). No hooks in /repo are needed. DESIGN.md describes every check.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fo:
    json.dump(m, fo, indent=1)
    fo.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
