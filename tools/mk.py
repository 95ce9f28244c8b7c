#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the contracts in specs/."""
import json
import os
import sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'vc'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
from properties import P

NA = {
    'P29': 'the 3d feature does not compile at the pinned commit, so there is no code to put under contract',
}
have = {}
for c in registry.contracts():
    have.setdefault(c[0], []).append(c)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for k, q in P.items():
        assert len(q['title']) <= 80, k
        f.write(json.dumps(dict(
            id=k, title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
            anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']], observe_at=q['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for k in P:
    if k in have and k not in NA:
        h = sum(c[3] == 'harness' for c in have[k])
        b = sum(c[3] == 'bounded' for c in have[k])
        note = ('%d contracts over the MIR of the real code, every obligation discharged by z3, cvc5 or polynomial arithmetic for all inputs; '
                'f32 is treated as the real numbers, library code without a body is modelled (trusted_base in the evidence). '
                'The same contracts also run natively on sampled inputs with a rounding tolerance. ' % h if h else '')
        if b:
            note += '%d bounded stand-in%s (sampled natively against an exact oracle, not counted as proved) for what the proofs leave out.' % (b, 's' if b > 1 else '')
        checks.append(dict(property=k, quick_cmd='./check.py ' + k, thorough_cmd='./check.py %s --thorough' % k,
                           technique='contract-based deductive verification (obligations from the MIR of the real code, z3/cvc5)' if h else 'bounded stand-in for contracts out of reach of the prover',
                           level='proof' if h else 'exploration', level_note=note.strip()))
    else:
        na.append(dict(property=k, reason=NA.get(k, 'not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='check.py builds everything it needs from /repo\'s current tree on every run; see DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
