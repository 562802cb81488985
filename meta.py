#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
D = os.path.dirname(os.path.abspath(__file__))
N = 'rs/synth/src/node/'
TECH = 'deductive verification of the real code: contracts over symbolic MIR execution, loop invariants, SMT'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, level='proof', note='', state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                  _level=level, _note=note))


HIST = 'every history of blocks and control messages, every sample value on every input, every parameter value in range'
NOTE = ('Every obligation generated from the current source is discharged for all sample values, parameter values and histories '
        '(invariant rule over blocks and messages). Block sizes are concrete instances; ')

exec(open(D + '/props.py').read())

checks = []
for p in P:
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py ' + p['id'],
                       technique=TECH, level=p.pop('_level'), level_note=p.pop('_note'), evidence_file='evidence/%s.json' % p['id']))
with open(D + '/properties.jsonl', 'w') as f:
    for p in sorted(P + [n for n, _ in NA], key=lambda p: p['id']):
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
json.dump(dict(version=1, setup_cmd='bash setup.sh',
               hooks=dict(guard='none', enable='no hooks: the checks compile /repo as it is', source_commits=[]),
               checks=sorted(checks, key=lambda c: c['property']),
               not_applicable=[dict(property=n['id'], reason=r) for n, r in NA],
               notes='One verifier (mirv) and one harness crate serve all checks; see DESIGN.md.'),
          open(D + '/MANIFEST.json', 'w'), indent=1)
